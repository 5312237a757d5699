#include "../qsystemsemaphore.h"
