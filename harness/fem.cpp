#include "fem_cmds.hpp"
int main(int argc, char **argv) { hx::base_handlers(); hx::fem_handlers(); return hx::run(argc, argv); }
