#include "msvc_names.h"
