#pragma once
int open(const char *, int, ...);
#define O_RDONLY 0
#define O_CLOEXEC 02000000
