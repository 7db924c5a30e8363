#pragma once
#define EMSCRIPTEN_KEEPALIVE
