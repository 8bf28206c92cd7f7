#pragma once
double pow(double,double);
