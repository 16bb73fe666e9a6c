#pragma once
#include "progs.h"
extern "C" {
#include "apex/apex.h"
}
string gen_inline(u32 depth);
string gen_transform();
string gen_block(u32 depth);
string gen_doc();
apex_options gen_options(string *text); /* runs apex_options_for_mode: call it inside run_sut or before threads start */
void gen_world(); /* the files the documents refer to */
