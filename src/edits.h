#pragma once
#include "lib.h"
namespace tp {
// performs a random edit of the tags of a parsed file; returns a description
std::string randomEdit(Rng &r, T::MediaFileInfo &f);
void emptyDirExcept(const std::string &dir, const std::string &keep);
}
