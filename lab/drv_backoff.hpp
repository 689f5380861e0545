#pragma once
#include <csetjmp>
#include <functional>
#include <string>
#include <vector>
extern std::string out; extern long fails; void emit(const std::string& s);
extern bool active, held;
extern long ops, limit; extern std::vector<long> flips; extern size_t nflip;
extern std::function<void(bool)> other;
extern jmp_buf jb;
