#include "util.h"
#include <stdbool.h>
#include <onion/version.h>
void harness(void) { int a, b, c; sym_make(&a, 4, "major"); sym_make(&b, 4, "minor"); sym_make(&c, 4, "patch"); int M = onion_version_major(), m = onion_version_minor();
  CHECK(M >= 0 && m >= 0 && onion_version_patch() >= 0 && onion_version() && onion_version()[0], "version: none"); CHECK(M == ONION_VERSION_MAJOR && m == ONION_VERSION_MINOR && onion_version_patch() == ONION_VERSION_PATCH, "version: not the one built");
  bool r = onion_version_is_compatible3(a, b, c); if (a == M && b <= m) { CHECK(r, "version: refuses a compatible program"); sym_reach("compatible"); } else { CHECK(!r, "version: accepts a program that is not compatible"); sym_reach("other"); } }
