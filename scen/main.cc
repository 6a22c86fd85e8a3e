#include "sim.h"
int main(int argc, char** argv) { return sim_main(argc, argv); }
