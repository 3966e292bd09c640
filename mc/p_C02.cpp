#define FORMAT std::string(" output hex\n")
#include "codefile.inc"
const char* PROPERTY = "C02";
