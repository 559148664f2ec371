#include "../win.h"
