// Messages: generated as libprotobuf messages (the reference), converted to and from the Qt classes under test.
#pragma once
#include <string>
#include <cstdint>
#include "refsim.pb.h"
#include "vsim.qpb.h"

// size: 0 empty (no bytes on the wire), 1 tiny, 2 small, 3 every field, 4 large, 5 awkward lengths, 6 nested, 7 huge
refsim::Msg makeMsg(int64_t uid, int32_t seq, int size, uint64_t salt);
std::string reshape(const std::string &bytes, uint64_t seed);
std::string wire(const refsim::Msg &m);        // bytes a server sends
std::string canon(const refsim::Msg &m);       // canonical form, equal iff the values are equal
uint64_t digest(const refsim::Msg &m);
void toQt(const refsim::Msg &m, vsim::Msg &out);
refsim::Msg fromQt(const vsim::Msg &m);
std::string brief(const refsim::Msg &m);
uint64_t digestQt(const vsim::Msg &m);
