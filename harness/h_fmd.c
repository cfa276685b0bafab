#define DEBUG_FILE_MANAGER
#include "../source/RKFileManager.c"
#include "h_fm.c"
