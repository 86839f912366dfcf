#include <TTree.h>
