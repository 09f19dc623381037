// Hostile input and arbitrary sequences of API calls (C01, C02, C03, C24).
#pragma once
#include "any.h"
#include "edits.h"
#include "mutate.h"
#include <memory>
namespace tp {
struct HostileFile {
    AnyGen g;
    Bytes bytes;
    std::string how;
    bool sound = false;
    bool scale = false; // excessive number or depth of elements
    std::shared_ptr<void> limit; // raised limit of file sizes
};
// increases the size of one MP4 atom/EBML element so it exceeds its parent; empty if not possible
Bytes enlargedElement(Rng &r, bool isMkv, const Bytes &file, std::string &what);
HostileFile hostileFile(Rng &r, unsigned soundPercent = 5);
// touches everything which can be obtained from a parsed file; returns a digest
std::string inspectAll(T::MediaFileInfo &f, Rng &r);
// runs a random sequence of parsing, inspecting and (in-memory) editing calls; call is invoked for each call which may throw
using CallFn = std::function<void(const char *name, const std::function<void(T::Diagnostics &, T::AbortableProgressFeedback &)> &)>;
std::string exercise(T::MediaFileInfo &f, Rng &r, bool edit, const CallFn &call);
}
