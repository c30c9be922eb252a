#pragma once
#include <string>
// one session against hostile traffic; everything the library lets out is appended to out
extern "C" void hostile_session(std::string &out);
extern "C" void z_hostile_session(std::string &out); // the same with zero-initialised locals and heap
