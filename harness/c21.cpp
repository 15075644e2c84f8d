#include "io.hpp"

static void prop(pbt::Case& c) { io::roundTrips<libnurbs::Surface>(c, io::wildSurface); }

const pbt::Property THE_PROPERTY{"C21", prop, 150000, 4000000, "a text round trip, or one into an object that was loaded into before"};
