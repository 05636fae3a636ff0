#include <units/quantity.h>
