#pragma once
typedef struct { double x, y; } cuDoubleComplex;
