// what xmalloc.c takes from main.c
#ifndef XENV_H
#define XENV_H
#include <stdbool.h>
int useallocator = 0;
bool usetrackallocs = false;
int narenas = 1;
#endif
