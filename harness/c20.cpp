#include "io.hpp"

static void prop(pbt::Case& c) { io::roundTrips<libnurbs::Curve>(c, io::wildCurve); }

const pbt::Property THE_PROPERTY{"C20", prop, 150000, 4000000, "a text round trip, or one into an object that was loaded into before"};
