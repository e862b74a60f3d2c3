// the parts of the library the threads run, compiled like the harness
#include "anifem++/inmost_interface/elemental_assembler.cpp"
#include "anifem++/fem/tetdofmap.cpp"
