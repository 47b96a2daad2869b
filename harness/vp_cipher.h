#include <string.h>
#include <openssl/evp.h>
#include <openssl/asn1.h>
#include "cipher.h"
#include "control.h"
#include "gost/gost89.h"
