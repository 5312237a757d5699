#include "../qwineventnotifier.h"
