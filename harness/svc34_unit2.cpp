// A second translation unit with types of the same name as in svc.cpp
#include "svc_anon.hpp"
unit_ops second_unit() { return UNIT_OPS; }
