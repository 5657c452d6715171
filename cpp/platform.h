#ifndef VERIF_PLATFORM_H
#define VERIF_PLATFORM_H
#include <string.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#define MKDIR(x) mkdir(x, S_IRWXU | S_IRWXG | S_IRWXO)
#endif
