#pragma once
int printf(const char*, ...);
