#pragma once
#include <stddef.h>
typedef int pid_t; typedef long ssize_t; pid_t getpid(void); int close(int); ssize_t read(int, void*, size_t);
