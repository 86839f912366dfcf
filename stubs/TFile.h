#include <TROOTFile.h>
