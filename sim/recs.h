// Data records: arbitrary and well-formed.
#pragma once
#include "world.h"
Bytes gen_text(size_t n);
Bytes gen_record(bool wild);                 // wild: any lengths, extension chains and types
Bytes gen_records(size_t room, bool wild, bool more); // fills at most room bytes
Bytes gen_data_frame(uint8_t addr, bool wild, bool more); // a complete valid frame with such records (or fixed, error, unknown data)
// other records, fillers and manufacturer data in the telegrams of a meter that stay what they are: the same number, the same
// telegrams but the last announcing more
void enrich(Meter &m);
bool well_formed(const Bytes &t, bool more); // the records of a telegram read as intended, the last mark included
// the records of a telegram as EN 13757-3 reads them (fillers left out); -1: malformed, 0: holds a reserved code of unknown length. special: 0F/1F, the rest of the telegram belongs to it; text, number: data of variable length
struct RawRecord { size_t at; uint8_t dif; bool special; bool text; bool number; Bytes data; };
int walk_records(const Bytes &t, std::vector<RawRecord> &out);
