#include "anifem++/inmost_interface/global_enumerator.cpp"
