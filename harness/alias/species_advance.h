#include "species_advance/species_advance.h"
