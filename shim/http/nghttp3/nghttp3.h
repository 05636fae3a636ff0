#include "../ng.h"
