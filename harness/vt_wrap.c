/* Replaces time() in the binary under test, so that srand(time(0)) is a seed
 * the check chooses (VT_TIME) and can repeat. */
#include <stdlib.h>
#include <time.h>
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
    static long calls = 0;      /* time passes: a restart gets another seed */
    const char *s = getenv("VT_TIME");
    time_t r = s ? (time_t)strtoll(s, NULL, 10) + calls++ : __real_time(NULL);
    if (t) *t = r;
    return r;
}
