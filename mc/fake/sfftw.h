#include "fftw.h"
