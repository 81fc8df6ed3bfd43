// Where the client of the walking router has no socket either (see http/server_http.hpp)
#ifndef VF_CLIENT_HTTP
#define VF_CLIENT_HTTP
#include "server_http.hpp"
#endif
