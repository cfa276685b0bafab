// Health and message texts: keys, values and states are found and changed exactly, and any text is handled within bounds.
#include "vp.h"
#include <strings.h>
#define MAXK 60
// ---- a random document -------------------------------------------------------------------------------------------
typedef struct { char key[60], val[400]; int isobj, en, has_en; char v[300]; } Pair;      // val: as rendered without blanks outside strings
static Pair P[MAXK];
static int np;
static const char *sp(int style) { return style == 0 ? "" : style == 1 ? " " : chance(0.5) ? "" : " "; }
static void rand_text(char *d, int max, int rich) {
    int n = rr(0, max), k = 0;
    const char *a = rich ? " abcdefgABCDEFG0123456789%/.-+_()[]{}:,'" : " abcdefgABCDEFG0123456789%/.-+_";
    for (int i = 0; i < n; i++) d[k++] = a[ri(strlen(a))];
    d[k] = 0;
}
static void rand_scalar(char *d, int rich, int max) {
    char t[300];
    switch (ri(6)) {
        case 0: strcpy(d, chance(0.5) ? "true" : "false"); break;
        case 1: sprintf(d, "%d", rr(-100000, 100000)); break;
        case 2: sprintf(d, "%.3f", rf(-500, 500)); break;
        case 3: sprintf(d, "%.2e", rf(0, 500)); break;
        default: rand_text(t, max, rich); sprintf(d, "\"%s\"", t); break;
    }
}
// The health style: objects of Value and Enum, arrays and scalars. No closing marks within strings (a stated limit of the functions)
static int make_health(char *b, int cap, int maxpairs) {
    int style = ri(3), k = sprintf(b, "{"), n = rr(1, maxpairs);
    np = 0;
    for (int i = 0; i < n && np < MAXK; i++) {
        Pair *p = &P[np];
        char line[800], t[300];
        int l = 0;
        memset(p, 0, sizeof(*p));
        snprintf(p->key, sizeof(p->key), "k%c%d%s", 'A' + rr(0, 25), i, i % 3 ? "" : i % 2 ? " Unit 5V" : "_x y");
        l += sprintf(line, "%s\"%s\":%s", np ? (style == 1 ? ", " : ",") : "", p->key, sp(style));
        if (style == 2 && np && chance(0.5)) { l = sprintf(line, ", \"%s\":", p->key); }
        if (chance(0.7)) {
            p->isobj = p->has_en = 1;
            p->en = chance(0.1) ? rr(10, 999) : rr(-3, 4);
            rand_scalar(t, 0, cap == RKMaximumStringLength ? 240 : 30);
            if (chance(0.15)) strcpy(t, chance(0.5) ? "\"True\"" : chance(0.5) ? "\"FALSE\"" : "\"true\"");
            strcpy(p->v, t);
            sprintf(p->val, "{\"Value\":%s,\"Enum\":%d}", t, p->en);
            const char *s1 = sp(style), *s2 = sp(style), *s3 = sp(style);
            l += sprintf(line + l, "{\"Value\":%s%s,%s\"Enum\":%s%d}", s1, t, s2, s3, p->en);
        } else if (chance(0.3)) {
            int m = rr(1, 6), q = sprintf(p->val, "[");
            for (int j = 0; j < m; j++) q += sprintf(p->val + q, "%s%.2f", j ? "," : "", rf(-9, 9));
            sprintf(p->val + q, "]");
            l += sprintf(line + l, "%s", p->val);
        } else {
            rand_scalar(p->val, 0, 60);
            l += sprintf(line + l, "%s", p->val);
        }
        if (k + l + 3 > cap) continue;
        memcpy(b + k, line, l + 1);
        k += l;
        np++;
    }
    if (np == 0) { b[0] = 0; return 0; }
    k += sprintf(b + k, "}");
    return k;
}
static void squeeze(char *d, const char *s) {
    int in = 0;
    for (; *s; s++) {
        if (in && *s == '\\' && s[1]) { *d++ = *s++; *d++ = *s; continue; }
        if (*s == '"') in = !in;
        if (in || !strchr(" \t\r\n", *s)) *d++ = *s;
    }
    *d = 0;
}
static char *exact(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return p; }
static void flip_case(char *s) { for (; *s; s++) if (chance(0.3)) { if (*s >= 'a' && *s <= 'z') *s -= 32; else if (*s >= 'A' && *s <= 'Z') *s += 32; } }
static void check_same(const char *what, const char *got, const char *want, const char *text) {
    char a[20000];
    if (strlen(got) > 19000) { VIOL(what, "%zu characters", strlen(got)); return; }
    squeeze(a, got);
    if (strcmp(a, want)) VIOL(what, "%.300s instead of %.300s in %.700s", a, want, text);
}
static void render(char *d, int old_en, int set_all, int one, int logical) {
    int k = sprintf(d, "{");
    for (int i = 0; i < np; i++) {
        char v[800];
        strcpy(v, P[i].val);
        if (P[i].isobj) {
            const char *t = P[i].v;
            if (logical) { if (!strcasecmp(t, "\"true\"")) t = "true"; else if (!strcasecmp(t, "\"false\"")) t = "false"; }
            sprintf(v, "{\"Value\":%s,\"Enum\":%d}", t, set_all || i == one ? old_en : P[i].en);
        } else if (logical) { if (!strcasecmp(v, "\"true\"")) strcpy(v, "true"); else if (!strcasecmp(v, "\"false\"")) strcpy(v, "false"); }
        k += sprintf(d + k, "%s\"%s\":%s", i ? "," : "", P[i].key, v);
    }
    sprintf(d + k, "}");
}
static void whole(const char *what, const char *got, const char *want) {
    char a[20000];
    squeeze(a, got);
    if (strcmp(a, want)) {
        int i = 0;
        while (a[i] && a[i] == want[i]) i++;
        VIOL(what, "differs at %d: ...%.120s instead of ...%.120s", i, a + (i > 20 ? i - 20 : 0), want + (i > 20 ? i - 20 : 0));
    }
}
static void cap_quiet(void) { static FILE *f; if (!f) stderr = f = fopen("/dev/null", "w"); }
static void health_ops(void) {
    char b[RKMaximumStringLength + 100], want[20000];
    int full = chance(0.15), n = make_health(b, full ? RKMaximumStringLength : rr(30, 3000), chance(0.2) ? 1 : full ? MAXK : rr(1, MAXK));
    if (np == 0) return;
    char *t = exact(b);
    // Value of a key
    for (int i = 0; i < np; i++) {
        char key[60];
        strcpy(key, P[i].key);
        flip_case(key);
        char *v = RKGetValueOfKey(t, key);
        if (!v) { VIOL("value", "'%s' is not found in %.700s", key, t); continue; }
        check_same("value", v, P[i].val, t);
        if (P[i].isobj) {
            char *x = RKGetValueOfKey(v, "value"), *y = RKGetValueOfKey(v, "enum");
            if (!x || !y) { VIOL("member", "value %p, enum %p in %s", (void *)x, (void *)y, v); continue; }
            check_same("member", x, P[i].v, v);
            if (atoi(y) != P[i].en) VIOL("enum", "%s in %s", y, v);
        }
    }
    if (RKGetValueOfKey(t, "absent") != NULL) VIOL("absent", "a value of an absent key");
    stat_add("values", np);
    // One key after the other
    {
        char *c = exact(t);
        size_t L = strlen(c) + 1;
        char *key = malloc(L), *val = malloc(L), *p = c + 1;
        c[strlen(c) - 1] = 0;
        int i = 0;
        while (p && i <= np) {
            p = RKGetNextKeyValue(p, key, val);
            if (i < np) { if (strcmp(key, P[i].key)) VIOL("next-key", "'%s' instead of '%s' in %.700s", key, P[i].key, t); check_same("next-value", val, P[i].val, t); }
            i++;
        }
        if (i != np) VIOL("next-count", "%d keys instead of %d in %.700s", i, np, t);
        // and with types
        strcpy(c, t);
        p = c + 1;
        uint8_t type;
        for (i = 0; p && *p && *p != '}' && i <= np; i++) {
            p = RKExtractJSON(p, &type, key, val);
            if (i < np) {
                if (strcmp(key, P[i].key)) VIOL("extract-key", "'%s' instead of '%s' in %.700s", key, P[i].key, t);
                check_same("extract-value", val, P[i].val, t);
                int ty = P[i].val[0] == '{' ? RKJSONObjectTypeObject : P[i].val[0] == '[' ? RKJSONObjectTypeArray : P[i].val[0] == '"' ? RKJSONObjectTypeString : RKJSONObjectTypePlain;
                if (type != ty) VIOL("extract-type", "%d instead of %d for %s", type, ty, P[i].val);
            }
        }
        if (i != np) VIOL("extract-count", "%d keys instead of %d in %.700s", i, np, t);
        free(c); free(key); free(val);
    }
    // States
    for (int en = -3; en <= 4; en++) {
        char fk[RKMaximumStringLength], fv[RKMaximumStringLength];
        int first = -1;
        for (int i = np - 1; i >= 0; i--) if (P[i].isobj && P[i].en == en) first = i;
        bool r = en == RKStatusEnumCritical ? RKAnyCritical(t, false, fk, fv) : RKFindCondition(t, en, false, chance(0.8) ? fk : (fk[0] = 0, strcpy(fk, first >= 0 ? P[first].key : ""), NULL), fv);
        if (r != (first >= 0)) VIOL("condition", "state %d %s in %.700s", en, r ? "found" : "not found", t);
        else if (r) { if (strcmp(fk, P[first].key)) VIOL("condition-key", "'%s' instead of '%s' for %d in %.700s", fk, P[first].key, en, t); check_same("condition-value", fv, P[first].val, t); }
        stat_add("conditions", 1);
    }
    free(t);
    // Changes, in a health
    RKHealth *h = malloc(sizeof(RKHealth));
    int en = full || chance(0.3) ? rr(-999, 999) : rr(-3, 4), grow = 0;
    for (int i = 0; i < np; i++) { char x[20], y[20]; if (P[i].isobj) grow += sprintf(x, "%d", en) - sprintf(y, "%d", P[i].en) > 0 ? 4 : 0; }
    strcpy(h->string, b);
    if (n + grow < RKMaximumStringLength) {
        RKReplaceAllValuesOfKey(h->string, "Enum", en);
        render(want, en, 1, -1, 0);
        whole("replace-all", h->string, want);
        strcpy(h->string, b);
        int one = ri(np);
        if (P[one].isobj) {
            char key[60];
            strcpy(key, P[one].key);
            flip_case(key);
            RKReplaceEnumOfKey(h->string, key, en);
            render(want, en, 0, one, 0);
            whole("replace-one", h->string, want);
            stat_add("replaced", 1);
        }
    } else { RKReplaceAllValuesOfKey(h->string, "Enum", en); if (strlen(h->string) >= RKMaximumStringLength) VIOL("replace-long", "%zu", strlen(h->string)); stat_add("too_long", 1); }
    strcpy(h->string, b);
    RKReviseLogicalValues(h->string);
    render(want, 0, 0, -1, 1);
    whole("logical", h->string, want);
    // The overview
    strcpy(h->string, b);
    char *text = malloc(1 << 20);
    int flag = ri(4);
    int m = RKHealthOverview(text, h->string, (flag & 1 ? RKTextPreferencesShowColor : 0) | (flag & 2 ? RKTextPreferencesDrawBackground : 0));
    if (m != (int)strlen(text)) VIOL("overview-length", "%d, text of %zu", m, strlen(text));
    int lines = 0;
    for (int i = 0; i < np; i++) if (P[i].isobj) {
        char w[400];
        int isl = strcasecmp(P[i].v, "true") && strcasecmp(P[i].v, "false");
        // each key once, its value on the same line
        int found = 0;
        for (char *q = text; (q = strstr(q, P[i].key)); q++) {
            size_t kl = strlen(P[i].key);
            if ((q > text && (q[-1] != ' ')) || (q[kl] != ' ' && q[kl] != '\n' && q[kl] != '|')) continue;
            if (isl) {
                strcpy(w, P[i].v);
                char *x = w;
                if (*x == '"') { x++; x[strlen(x) - 1] = 0; }
                char line[2000];
                int l = strcspn(q, "\n");
                snprintf(line, sizeof(line), "%.*s", l < 1999 ? l : 1999, q);
                if (!strstr(line, x)) continue;
            }
            found++;
        }
        if (!found) VIOL("overview", "'%s' %s is not in %.1000s", P[i].key, P[i].v, text);
        lines++;
    }
    for (int i = 0; i < np; i++) if (!P[i].isobj && strstr(text, P[i].key) && lines == 0) VIOL("overview-extra", "%s", P[i].key);
    free(text); free(h);
    stat_add("healths", 1);
    DISTINCTF("h%d.%d.%d.%d", np, n / 100, flag, en);
}
// ---- nested documents --------------------------------------------------------------------------------------------
static int make_tree(char *b, char *flat, char *pretty, int depth, int style, int top);
static void put(char *b, int *k, const char *s) { strcpy(b + *k, s); *k += strlen(s); }
static char top_key[40][60], top_val[40][6000];
static int ntop;
static int budget;
static int make_value(char *b, char *flat, char *pretty, int depth, int style) {
    if (depth < 4 && budget > 0 && chance(0.35)) return make_tree(b, flat, pretty, depth + 1, style, 0);
    char t[300];
    switch (ri(5)) {
        case 0: strcpy(t, chance(0.5) ? "true" : "false"); break;
        case 1: sprintf(t, "%d", rr(-1000, 1000)); break;
        case 2: sprintf(t, "%.4f", rf(-5, 500)); break;
        default: {
            // strings of any content, with escaped quotes
            char u[100]; rand_text(u, 40, 1);
            int k = sprintf(t, "\"");
            for (char *c = u; *c; c++) { if (*c == '\'') { k += sprintf(t + k, chance(0.5) ? "\\\"" : "\\\\"); } else t[k++] = *c; }
            sprintf(t + k, "\"");
        }
    }
    strcpy(b, t); strcpy(flat, t); strcpy(pretty, t);
    return strlen(t);
}
static int make_tree(char *b, char *flat, char *pretty, int depth, int style, int top) {
    int dict = top || chance(0.6), n = rr(1, top ? 12 : 4), k = 0, f = 0, p = 0;
    const char *nl[] = {"", " ", "\n", "\r\n  ", "   "};
    #define W nl[style ? ri(5) : 0]
    put(b, &k, dict ? "{" : "["); put(flat, &f, dict ? "{" : "["); put(pretty, &p, dict ? "{" : "[");
    for (int i = 0; i < n; i++) {
        char *vb = malloc(20000), *vf = malloc(20000), *vp = malloc(30000), key[60] = "", line[100];
        budget--;
        put(b, &k, W);
        if (dict) {
            sprintf(key, "%c%d%s", 'a' + rr(0, 25), i, chance(0.3) ? " - w" : "");
            sprintf(line, "\"%s\"", key);
            put(b, &k, line); put(b, &k, W); put(b, &k, ":"); put(b, &k, W);
            put(flat, &f, line); put(flat, &f, ":");
            put(pretty, &p, key); put(pretty, &p, " = ");
        }
        make_value(vb, vf, vp, depth, style);
        put(b, &k, vb); put(flat, &f, vf); put(pretty, &p, vp);
        put(b, &k, W);
        if (i < n - 1) { put(b, &k, ","); put(flat, &f, ","); put(pretty, &p, ", "); }
        if (top && ntop < 40 && strlen(vf) < 5900) { strcpy(top_key[ntop], key); strcpy(top_val[ntop++], vf); }
        free(vb); free(vf); free(vp);
    }
    put(b, &k, dict ? "}" : "]"); put(flat, &f, dict ? "}" : "]"); put(pretty, &p, dict ? "}" : "]");
    return k;
}
static void strip(char *d, const char *s) {
    while (*s) {
        if (*s == 27) { while (*s && !((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z'))) s++; if (*s) s++; }
        else *d++ = *s++;
    }
    *d = 0;
}
static void tree_ops(void) {
    static char b[100000], flat[100000], pretty[200000];
    int style = ri(3);
    ntop = 0; budget = 30;
    make_tree(b, flat, pretty, 0, style, 1);
    if (strlen(flat) > 15000) return;
    char *t = exact(b);
    size_t L = strlen(t) + 1;
    char *kv = malloc(L), *key = malloc(L), *val = malloc(L);
    for (int i = 0; i < ntop; i++) {
        char name[60];
        strcpy(name, top_key[i]);
        flip_case(name);
        RKJSONGetValueOfKey(kv, key, val, name, t);
        // keys may differ in case only
        if (strcasecmp(key, top_key[i])) VIOL("json-key", "'%s' instead of '%s' in %.700s", key, top_key[i], t);
        else { int first = i; for (int j = i; j >= 0; j--) if (!strcasecmp(top_key[j], name)) first = j; check_same("json-value", val, top_val[first], t); }
    }
    RKJSONGetValueOfKey(kv, key, val, "absent", t);
    if (*kv) VIOL("json-absent", "'%s' for an absent key in %.700s", kv, t);
    // one element after the other
    char *p = t + 1;
    for (int i = 0; i < ntop; i++) {
        p = RKJSONGetElement(kv, p);
        RKJSONKeyValueFromElement(key, val, kv);
        if (strcmp(key, top_key[i])) VIOL("element-key", "'%s' instead of '%s' in %.700s", key, top_key[i], t);
        check_same("element-value", val, top_val[i], t);
    }
    size_t s = RKPrettyStringSizeEstimate(t);
    char *d = malloc(s), *q = malloc(s);
    size_t r = RKPrettyStringFromKeyValueString(d, t);
    if (r != strlen(d) || r >= s) VIOL("pretty-length", "%zu of %zu, text of %zu", r, s, strlen(d));
    strip(q, d);
    char *x = malloc(2 * s), *y = malloc(200000);
    squeeze(x, q); squeeze(y, pretty);
    if (strcmp(x, y)) VIOL("pretty", "%.500s instead of %.500s", x, y);
    free(x); free(y); free(d); free(q); free(kv); free(key); free(val); free(t);
    stat_add("documents", 1);
    DISTINCTF("t%d.%zu.%d", ntop, strlen(flat) / 20, style);
}
// ---- any text ----------------------------------------------------------------------------------------------------
static void any_text(char *b, int cap) {
    if (chance(0.75)) {
        if (chance(0.5)) make_health(b, cap, rr(1, MAXK));
        else { static char flat[100000], pretty[200000], big[100000]; ntop = 0; budget = 15; make_tree(big, flat, pretty, 0, ri(3), 1); snprintf(b, cap, "%s", big); }
        int n = strlen(b), m = rr(1, 6);
        for (int i = 0; i < m && n > 0; i++) switch (ri(4)) {
            case 0: b[n = ri(n + 1)] = 0; break;
            case 1: b[ri(n)] = "{}[]\"':,\\ \n%0E\033"[ri(15)]; break;
            case 2: { int a = ri(n), l = rr(1, 8); if (a + l < n) { memmove(b + a, b + a + l, n - a - l + 1); n -= l; } } break;
            default: { int a = ri(n); if (n + 1 < cap) { memmove(b + a + 1, b + a, n - a + 1); b[a] = "{}[]\"':,\\ "[ri(10)]; n++; } } break;
        }
    } else {
        int n = rr(0, 60);
        for (int i = 0; i < n; i++) b[i] = "{}[]\"':,\\ aE0t"[ri(14)];
        b[n] = 0;
    }
}
static int within(const char *v, const char *t) {
    // a piece of the text
    return v == NULL || strstr(t, v) != NULL;
}
static void any_ops(void) {
    char b[RKMaximumStringLength];
    any_text(b, RKMaximumStringLength - 1);
    char *t = exact(b);
    size_t L = strlen(t) + 1;
    const char *keys[] = {"Enum", "Value", "kA0", "e", "a0", "t"};
    for (int i = 0; i < 6; i++) { char *v = RKGetValueOfKey(t, keys[i]); if (!within(v, t)) VIOL("any-value", "%.300s is not in %.700s", v, t); if (v && strlen(v) < 3000) { char *w = RKGetValueOfKey(v, "Enum"); if (!within(w, t)) VIOL("any-enum", "%.300s is not in %.700s", w, t); } }
    char *c = malloc(L), *key = malloc(L), *val = malloc(L), *p;
    uint8_t type;
    strcpy(c, t);
    int i = 0;
    for (p = c; p && i < 10000; i++) { char *q = RKExtractJSON(p, &type, key, val); if (q && (q <= p || q >= c + L)) { VIOL("any-extract", "from %ld to %ld of %zu", (long)(p - c), (long)(q - c), L); break; } p = q; if (p && *p == 0) break; }
    for (p = c, i = 0; p && i < 10000; i++) { char *q = RKGetNextKeyValue(p, key, val); if (q && (q <= p || q >= c + L)) { VIOL("any-next", "from %ld to %ld of %zu", (long)(p - c), (long)(q - c), L); break; } p = q; }
    if (i == 10000) VIOL("any-endless", "%.700s", t);
    for (p = t, i = 0; *p && i < 10000; i++) { char *q = RKJSONGetElement(c, p); if (q <= p || q >= t + L) { VIOL("any-element", "from %ld to %ld of %zu: %.600s", (long)(p - t), (long)(q - t), L, t); break; } RKJSONKeyValueFromElement(key, val, c); p = q; }
    RKJSONGetValueOfKey(c, key, val, keys[ri(6)], t);
    RKFindCondition(t, rr(-3, 4), false, NULL, NULL);
    RKHealth *h = malloc(sizeof(RKHealth));
    strcpy(h->string, b);
    RKReplaceAllValuesOfKey(h->string, "Enum", rr(-999, 9999));
    RKReplaceEnumOfKey(h->string, keys[ri(6)], rr(-999, 9999));
    RKReviseLogicalValues(h->string);
    if (memchr(h->string, 0, RKMaximumStringLength) == NULL) VIOL("any-long", "not terminated");
    char *text = malloc(1 << 20);
    RKHealthOverview(text, t, (chance(0.5) ? RKTextPreferencesShowColor : 0) | (chance(0.5) ? RKTextPreferencesDrawBackground : 0));
    size_t s = RKPrettyStringSizeEstimate(t);
    free(text);
    char *d = malloc(s);
    size_t r = RKPrettyStringFromKeyValueString(d, t);
    if (r != strlen(d) || r >= s) VIOL("any-pretty", "%zu of %zu", r, s);
    free(d);
    char k1[RKMaximumStringLength], v1[RKMaximumStringLength], k2[RKMaximumStringLength];
    RKParseQuotedStrings(t, k1, v1, k2, NULL);
    RKProductDesc desc;
    RKParseProductDescription(&desc, t);
    if (memchr(desc.name, 0, sizeof(desc.name)) == NULL || memchr(desc.symbol, 0, sizeof(desc.symbol)) == NULL || memchr(desc.unit, 0, sizeof(desc.unit)) == NULL || memchr(desc.colormap, 0, sizeof(desc.colormap)) == NULL || desc.pieceCount > 8) VIOL("any-product", "a text is not terminated");
    double dv[8];
    size_t cnt = rr(0, 8);
    double *dx = malloc(cnt * 8 + 1);
    if (RKParseNumericArray(dx, RKValueTypeDouble, cnt, t) > cnt) VIOL("any-array", "too many");
    (void)dv;
    free(dx);
    free(c); free(key); free(val); free(h); free(t);
    stat_add("odd_texts", 1);
    DISTINCTF("a%zu.%08x", L, (unsigned)vp_h(b, L, 5));
}
// ---- texts -------------------------------------------------------------------------------------------------------
static void text_ops(void) {
    // Numbers
    {
        int n = rr(1, 12), ty = ri(6), k = 0, arr = chance(0.7), cap = rr(0, 14);
        double v[12];
        char b[400] = "";
        k += sprintf(b, "%s", arr ? chance(0.5) ? "[" : "x [ " : "");
        for (int i = 0; i < n; i++) { v[i] = ty < 2 ? rr(-99999, 99999) / 100.0 : ty == 3 || ty == 5 ? rr(0, 1000000) : rr(-1000000, 1000000); k += sprintf(b + k, ty < 2 ? "%s%.2f" : "%s%.0f", i ? chance(0.5) ? ", " : "," : "", v[i]); }
        if (arr) sprintf(b + k, "] y");
        const RKValueType types[] = {RKValueTypeFloat, RKValueTypeDouble, RKValueTypeInt32, RKValueTypeUInt32, RKValueTypeInt64, RKValueTypeUInt64};
        const int size[] = {4, 8, 4, 4, 8, 8};
        char *t = exact(b), *st = malloc(cap * size[ty] + 1);
        size_t r = RKParseNumericArray(st, types[ty], cap, t);
        if (r != (size_t)(n < cap ? n : cap)) VIOL("numbers-count", "%zu of %d, room for %d: %s", r, n, cap, b);
        else for (size_t i = 0; i < r; i++) {
            double x = ty == 0 ? ((float *)st)[i] : ty == 1 ? ((double *)st)[i] : ty == 2 ? ((int32_t *)st)[i] : ty == 3 ? ((uint32_t *)st)[i] : ty == 4 ? (double)((int64_t *)st)[i] : (double)((uint64_t *)st)[i];
            if (!close_to(x, v[i], 1e-9, ty ? 1e-12 : 1e-6)) VIOL("numbers", "value %zu is %f instead of %f in %s", i, x, v[i], b);
        }
        free(t); free(st);
    }
    // Quoted strings
    {
        char a[3][60], b[300];
        for (int i = 0; i < 3; i++) rand_text(a[i], 40, 0);
        int q = ri(2), n = rr(1, 3), k = 0;
        for (int i = 0; i < n; i++) k += sprintf(b + k, q ? "'%s' ; " : " \"%s\",", a[i]);
        char *t = exact(b), o[3][RKMaximumStringLength] = {"-", "-", "-"};
        RKParseQuotedStrings(t, o[0], o[1], o[2], NULL);
        for (int i = 0; i < 3; i++) if (strcmp(o[i], i < n ? a[i] : "-")) VIOL("quoted", "string %d is '%s' in %s", i, o[i], b);
        free(t);
        // and one
        char u[80];
        sprintf(u, q ? "'%s'" : "\"%s\"", a[0]);
        t = exact(u);
        int r = RKUnquote(t);
        if (strcmp(t, a[0]) || r != (int)strlen(a[0])) VIOL("unquote", "%s becomes %s (%d)", u, t, r);
        free(t);
        t = exact(a[0]);
        r = RKUnquote(t);
        if (strcmp(t, a[0]) || r != (int)strlen(a[0])) VIOL("unquote-plain", "%s becomes %s (%d)", a[0], t, r);
        free(t);
        char e[100];
        sprintf(e, "%s%s", a[0], chance(0.5) ? " \r\n" : chance(0.5) ? "\n\n" : "");
        t = exact(e);
        r = RKStripTail(t);
        size_t w = strlen(e);
        while (w > 1 && strchr(" \r\n\t", e[w - 1])) w--;        // the first character always stays
        if (strlen(t) != w || strncmp(t, e, w)) VIOL("tail", "'%s' becomes '%s' (%d)", e, t, r);
        free(t);
        int width = rr(1, 60);
        char *dst = malloc(width + 1);
        RKStringCenterized(dst, a[0], width);
        int l = 0, rt = width;
        while (l < width && dst[l] == ' ') l++;
        while (rt > l && dst[rt - 1] == ' ') rt--;
        if (strlen(dst) != (size_t)width) VIOL("center-width", "%zu of %d", strlen(dst), width);
        if ((int)strlen(a[0]) < width && !strstr(dst, a[0])) VIOL("center", "'%s' in '%s'", a[0], dst);
        free(dst);
    }
    // Products
    {
        int key = rr(0, 5000), pc = rr(1, 8), nb = rr(1, 10), k;
        char b[1000], nm[30], sy[12];
        float bb[10], ww[10], lo = rr(-1000, 1000) / 10.0f, hi = rr(-1000, 1000) / 10.0f;
        sprintf(nm, "N%d", rr(0, 99999)); sprintf(sy, "S%d", rr(0, 99999));
        for (int i = 0; i < nb; i++) { bb[i] = rr(-1000, 1000) / 10.0f; ww[i] = rr(1, 1000) / 10.0f; }
        const char *q = chance(0.5) ? "\"" : "";
        k = sprintf(b, "{\"key\": %d, \"name\": %s%s%s, \"symbol\": %s%s%s, \"PieceCount\": %d, \"b\": [", key, q, nm, q, q, sy, q, pc);
        for (int i = 0; i < nb; i++) k += sprintf(b + k, "%s%.1f", i ? "," : "", bb[i]);
        k += sprintf(b + k, "], \"w\": [");
        for (int i = 0; i < nb; i++) k += sprintf(b + k, "%s%.1f", i ? "," : "", ww[i]);
        k += sprintf(b + k, "], \"unit\": dBZdBZdBZ, \"colormap\": ZmapZmapZmap, \"minimumValue\": %.1f, \"maximumValue\": %.1f}", lo, hi);
        char *t = exact(b);
        RKProductDesc d;
        int r = RKParseProductDescription(&d, t);
        if (r != RKResultSuccess || d.key != (uint32_t)key || strcmp(d.name, nm) || strncmp(d.symbol, sy, 7) || d.pieceCount != (uint32_t)pc) VIOL("product", "%d: %u '%s' '%s' %u from %s", r, d.key, d.name, d.symbol, d.pieceCount, b);
        for (int i = 0; i < pc && i < nb; i++) if (d.b[i] != bb[i] || d.w[i] != ww[i]) VIOL("product-pieces", "piece %d: %f %f from %s", i, d.b[i], d.w[i], b);
        if (fabs(d.mininimumValue - lo) > 1e-5 || fabs(d.maximumValue - hi) > 1e-5) VIOL("product-range", "%f to %f from %s", d.mininimumValue, d.maximumValue, b);
        free(t);
        stat_add("products", 1);
    }
    // Bytes
    {
        int n = rr(0, 80);
        uint8_t *src = malloc(n + (n == 0));
        int plain = chance(0.5);
        for (int i = 0; i < n; i++) src[i] = plain ? 32 + ri(95) : ri(256);
        char want[1000], got[1000], *d = want;
        d += sprintf(d, "b'");
        for (int i = 0; i < n; i++) if (src[i] >= 32 && src[i] < 127) { if (src[i] == '\\' || src[i] == '\'') *d++ = '\\'; *d++ = src[i]; } else d += sprintf(d, "\\x%02x", src[i]);
        sprintf(d, "'");
        char *e = RKBinaryString(got, src, n);
        if (strcmp(got, want) || e != got + strlen(got)) VIOL("binary", "%s instead of %s", got, want);
        RKHeadTailBinaryString(got, src, n);
        if (n < 30 && strcmp(got, want)) VIOL("binary-short", "%s instead of %s", got, want);
        if (n >= 30) { RKBinaryString(want, src, 25); strcat(want, " ... "); RKBinaryString(want + strlen(want), src + n - 5, 5); if (strcmp(got, want)) VIOL("binary-ends", "%s instead of %s", got, want); }
        RKHeadTailBytesInHex(got, src, n);
        if (n >= 1) RKRadarHubPayloadString(got, src, n);
        free(src);
    }
    // Columns
    {
        char l[600] = "", r[900] = "", text[20000];
        int nl = rr(0, 6), nr = rr(0, 6), k = 0;
        char lt[6][80], rt[6][80];
        for (int i = 0; i < nl; i++) { rand_text(lt[i], 40, 0); lt[i][0] = 'L'; lt[i][1] = '0' + i; if (strlen(lt[i]) < 3) strcpy(lt[i] + 2, "."); k += sprintf(l + k, "%s%s%s%s", i & 1 ? "\033[38;5;46m" : "", lt[i], i & 1 ? "\033[m" : "", i == nl - 1 && chance(0.3) ? "" : "\n"); }
        k = 0;
        for (int i = 0; i < nr; i++) { rand_text(rt[i], 60, 0); rt[i][0] = 'R'; rt[i][1] = '0' + i; if (strlen(rt[i]) < 3) strcpy(rt[i] + 2, "."); k += sprintf(r + k, "%s%s", rt[i], i == nr - 1 && chance(0.3) ? "" : "\n"); }
        char *a = exact(l), *c = exact(r);
        int indent = rr(0, 6);
        RKMergeColumns(text, a, c, indent);
        char s[20000];
        strip(s, text);
        int row = 0;
        for (char *p = s; *p; row++) {
            char *e = strchr(p, '\n');
            if (!e) { VIOL("columns-end", "no line break at the end"); break; }
            *e = 0;
            if (row < nl && strncmp(p + indent, lt[row], strlen(lt[row]))) VIOL("columns-left", "row %d: '%s' has not '%s'", row, p, lt[row]);
            char *q = row < nr ? strstr(p, rt[row]) : NULL;
            if (row < nr && !q) VIOL("columns-right", "row %d: '%s' has not '%s'", row, p, rt[row]);
            if (q && (row >= nl || strlen(lt[row]) <= 26) && q - p != 26 + indent) VIOL("columns-at", "row %d: the right column begins at %ld", row, (long)(q - p));
            p = e + 1;
        }
        if (row != (nl > nr ? nl : nr)) VIOL("columns-rows", "%d rows of %d and %d", row, nl, nr);
        free(a); free(c);
        stat_add("columns", 1);
        // the escape sequences go, the rest stays
        char x[20000];
        snprintf(x, sizeof(x), "%s", l);
        char *y = RKStripEscapeSequence(x), z[600];
        strip(z, l);
        if (strcmp(y, z)) VIOL("escape", "'%s' instead of '%s'", y, z);
    }
    stat_add("texts", 1);
}
static void vp_case(uint64_t index) {
    cap_quiet();
    switch (ri(5)) {
        case 0: health_ops(); break;
        case 1: tree_ops(); break;
        case 2: text_ops(); break;
        default: any_ops(); break;
    }
    if (index == 0) { char b[1000]; make_health(b, 900, 8); sample("health: %s", b); }
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
