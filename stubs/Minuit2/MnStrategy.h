#include "MnApplication.h"
