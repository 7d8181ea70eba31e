#pragma once
void new_object(World &w, std::string const &id, Val const &o);
Val observe(World &w, std::string const &id);
