#include "field_advance/field_advance.h"
