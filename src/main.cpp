#include "pbt.h"
int main (int argc, char **argv) { return pbt::main_ (argc, argv); }
