#include "sf_interface/sf_interface.h"
