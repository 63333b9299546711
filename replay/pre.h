#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#define malloc v_malloc
#define free v_free
#define realloc v_realloc
#define calloc v_calloc
