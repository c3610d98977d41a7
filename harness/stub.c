/* Hook functions for harnesses that do not record memory traces. */
int Verif_Enter(const char *kind, const void *a, const void *b, const void *c, long x, double y) { return 0; }
void Verif_Leave(int *frame) {}
void Verif_Point(const char *kind, const void *a, const void *b, const void *c, long x, double y) {}
