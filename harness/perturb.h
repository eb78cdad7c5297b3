// Schedule perturbation: mutex operations (and writes to files) of the library are wrapped to insert random pauses.
#pragma once
#include <cstdint>
#include <string>

namespace perturb {
// perMille: chance of a pause at each lock operation; maxUs: longest pause; ioUs: longest pause at file writes
void start(uint64_t seed, unsigned perMille, unsigned maxUs, unsigned ioUs = 0);
void stop();
uint64_t pauses();
uint64_t lockOps();
// hash of the order in which threads took locks since start(): tells interleavings apart
uint64_t signature();
} // namespace perturb
