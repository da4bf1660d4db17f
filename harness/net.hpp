// minimal network provider for contract proofs: buffers are the real BasicNetworking ones, the rest is ghost
#pragma once
#include "networking/BasicNetworking.hpp"
struct PNet : webfront::networking::BasicNetworking<> {};
