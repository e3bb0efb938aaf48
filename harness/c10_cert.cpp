// C10: certificate, chain and private key objects against doc/noise-certificate.proto.
#include "certdesc.hpp"
int main(int argc, char **argv) {
    describe_all();
    return vh::run(argc, argv, [](uint64_t i, vh::Rng &r) { pb::session(i, r, all); });
}
