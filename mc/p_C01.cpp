#define FORMAT std::string(" output scode\n")
#include "codefile.inc"
const char* PROPERTY = "C01";
