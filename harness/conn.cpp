// the operations of one connection: parsing, answering, serialising, decoding
#include "http.cpp"
#include "ws.cpp"
#include "handler.cpp"
