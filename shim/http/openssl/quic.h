// OpenSSL >= 3.2 only; nothing of it is used over the stand-ins
