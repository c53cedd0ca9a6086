#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
