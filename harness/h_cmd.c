// Control commands: every command does what it says, to nothing else, and is answered once.
#include "vp.h"
static void nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us) { nap(us / 10 + 1); return 0; }

// ---- devices that write down what they are told ---------------------------------------------------------------------
enum { TRX, PED, HLT, DEVS };
static const char *devName[] = {"transceiver", "pedestal", "health relay"};
typedef struct { int dev; char *text; char *answer; } Told;
static Told *told;
static int ntold, ctold;
static pthread_mutex_t tlock = PTHREAD_MUTEX_INITIALIZER;
static int answerSize[DEVS];
static int handles[DEVS] = {TRX, PED, HLT};
static void forget(void) { for (int i = 0; i < ntold; i++) { free(told[i].text); free(told[i].answer); } ntold = 0; }
static void *dev_init(RKRadar *R, void *in) { return in; }
static int dev_free(void *in) { return RKResultSuccess; }
static int dev_exec(void *in, const char *command, char *response) {
    int d = *(int *)in;
    if (!strcmp(command, "disconnect")) return RKResultSuccess;
    pthread_mutex_lock(&tlock);
    if (ntold == ctold) told = realloc(told, (size_t)(ctold = 2 * ctold + 64) * sizeof(Told));
    Told *t = &told[ntold++];
    t->dev = d;
    t->text = strdup(command);
    size_t n = (size_t)answerSize[d], k;
    char *a = malloc(n + 60);
    k = (size_t)snprintf(a, n + 60, "%s #%d.", ntold % 3 ? "ACK" : "NAK", ntold);
    while (k < n) { a[k] = k % 60 == 59 ? '\n' : (char)('a' + k % 26); k++; }
    a[k] = 0;
    memcpy(a + k, RKEOL, strlen(RKEOL) + 1);
    t->answer = a;
    if (response == NULL) VIOL("null", "'%s' came to the %s without room for an answer", command, devName[d]);
    else memcpy(response, a, strlen(a) + 1);
    pthread_mutex_unlock(&tlock);
    return RKResultSuccess;
}

// ---- what the radar is set to ---------------------------------------------------------------------------------------
typedef struct {
    RKConfig config;
    RKIIRFilter filter;
    int haveFilter, filterOn;
    int (*processor)(RKMomentScratch *, RKPulse **, const uint16_t);
    int lag, record, type;
} State;
static RKRadar *R;
static void state_of(State *s) {
    memset(s, 0, sizeof(State));
    s->config = *RKGetLatestConfig(R);
    s->filter = R->pulseRingFilterEngine->filter;
    s->filterOn = R->pulseRingFilterEngine->useFilter;
    s->processor = R->momentEngine->momentProcessor;
    s->lag = R->momentEngine->userLagChoice;
    s->record = R->rawDataRecorder->record;
    s->type = R->rawDataRecorder->rawDataType;
}
static int same_filter(const RKIIRFilter *a, const RKIIRFilter *b) {
    if (a->bLength != b->bLength || a->aLength != b->aLength || a->type != b->type) return 0;
    return !memcmp(a->B, b->B, sizeof(a->B)) && !memcmp(a->A, b->A, sizeof(a->A));
}
static const char *differs(const State *a, const State *b) {
    RKConfig x = a->config, y = b->config;
    x.i = y.i = 0;
    if (memcmp(x.noise, y.noise, sizeof(x.noise))) return "the noise";
    if (x.SNRThreshold != y.SNRThreshold) return "the SNR threshold";
    if (x.SQIThreshold != y.SQIThreshold) return "the SQI threshold";
    if (x.ringFilterGateCount != y.ringFilterGateCount) return "the gate count of the ring filter";
    if (strcmp(x.vcpDefinition, y.vcpDefinition)) return "the volume definition";
    if (memcmp(&x, &y, sizeof(x))) return "another setting";
    if (a->filterOn != b->filterOn) return "whether the ring filter is used";
    if (!same_filter(&a->filter, &b->filter)) return "the ring filter";
    if (a->processor != b->processor) return "the moment method";
    if (a->lag != b->lag && a->processor == RKMultiLag) return "the number of lags";
    if (a->record != b->record) return "the recorder";
    if (a->type != b->type) return "the kind of data recorded";
    return NULL;
}
static void spaces(char *c, int least) { int n = chance(0.7) ? least : least + ri(3); memset(c, ' ', (size_t)n); c[n] = 0; }
static RKSteerEngine *twin;
static char *out, *out2;
static int devs[DEVS], steer;
static const double nums[] = {0, 1, -1, 0.5, 1e-3, 12.25, -33.5, 4096, 1e9, -1e-9, 1e30};
static double num(void) { return chance(0.4) ? nums[ri(11)] : rf(-50, 50); }
static const char *vols[] = {"pp 2,4,6 30 18", "ipp 1,2,3 0 20", "opp 90,90 40 18", "rr 0,30 10,20 12", "irr 0,20 30 18", "orr 0,60 10 18", "vol p 4.0 30 20/r 0,45 270 10", "stop", "home", "pp", "zero", "", "p", "vol", "help", "stat", "b", "go", "pp 400 abc", "vol x 1 2 3"};
static char dtext[120];
static void random_text(char *c, int n) {
    static const char *al = "dfmnNrqstchpvbyz 0123456789.-+,;%/eE\"\\{}ABC\t";
    int k = rr(0, n), kind = ri(3);
    for (int i = 0; i < k; i++) c[i] = kind == 0 ? al[ri((uint32_t)strlen(al))] : kind == 1 ? (char)rr(1, 255) : (char)rr(32, 126);
    c[k] = 0;
}
// One command; what it means follows from how it was made
enum { OTHER, DEVICE, NOISE, NOISEDB, SNR, SQI, FILTER, METHOD, ASK, RECORD, VOLUME, MASTER, UNKNOWN, CLEAR, HELP, RESTART, FREE, KINDS };
static const char *kindName[] = {"other", "device", "noise", "noise dB", "SNR", "SQI", "filter", "method", "ask", "record", "volume", "master", "unknown", "clear", "help", "restart", "free text"};
static int closef(RKFloat a, double b) { return a == (RKFloat)b || fabs(a - b) <= 1e-6 * fabs(b); }
static uint64_t kinds[KINDS];
static void one_command(int quiet) {
    static char cmd[RKMaximumStringLength + 200];
    char sp[8], s2[8];
    static const int common[] = {DEVICE, DEVICE, DEVICE, NOISE, NOISEDB, SNR, SQI, FILTER, FILTER, METHOD, METHOD, ASK, RECORD, VOLUME, VOLUME, MASTER, UNKNOWN, UNKNOWN, FREE, FREE, FREE};
    int kind = chance(0.02) ? (chance(0.5) ? HELP : CLEAR) : chance(0.002) ? RESTART : common[ri(21)], dev = ri(DEVS), r = 0, len;
    double a = num(), b = num();
    int n = 0, letter = 0;
    uint32_t g = 0;
    State s0, want, got;
    state_of(&s0);
    want = s0;
    const char *ack = "ACK", *expected = NULL;
    char rest[RKMaximumStringLength + 100] = "";
    spaces(sp, 0);
    spaces(s2, 1);
    snprintf(dtext, sizeof(dtext), "%s", "");
#define DSP(letter) (chance(0.5) ? snprintf(cmd, sizeof(cmd), "d%c", letter) : snprintf(cmd, sizeof(cmd), "d %c", letter))
    switch (kind) {
        case DEVICE:
            random_text(rest, chance(0.1) ? 480 : 40);
            { char *p = rest; while (*p == ' ') p++; memmove(rest, p, strlen(p) + 1); }
            if (dev == HLT && sp[0] == 0 && !strncmp(rest, "elp", 3)) rest[0] = 'x';
            if (rest[0] == 0) snprintf(rest, sizeof(rest), "x");
            snprintf(cmd, sizeof(cmd), "%c%s%s", "tph"[dev], sp, rest);
            break;
        case NOISE: case NOISEDB:
            r = chance(0.85);
            if (kind == NOISEDB) { a = rf(-60, 60); b = rf(-60, 60); }
            len = DSP(kind == NOISE ? 'n' : 'N');
            if (r) {
                snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s%.9g %.9g", sp, a, b);
                want.config.noise[0] = (RKFloat)(kind == NOISE ? a : pow(10.0, a / 10.0));
                want.config.noise[1] = (RKFloat)(kind == NOISE ? b : pow(10.0, b / 10.0));
            } else { snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s%s", sp, chance(0.5) ? "abc" : "1.5"); ack = "NAK"; }
            break;
        case SNR: case SQI:
            letter = kind == SQI ? 'q' : "st"[ri(2)];
            len = DSP(letter);
            snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s%.9g", sp, a);
            if (kind == SNR) want.config.SNRThreshold = (RKFloat)a; else want.config.SQIThreshold = (RKFloat)a;
            break;
        case FILTER:
            len = DSP('f');
            n = chance(0.8) ? rr(0, RKFilterTypeCount - 1) : chance(0.3) ? RKFilterTypeTest1 : rr(-5, 1000);
            g = chance(0.5) ? 0 : chance(0.2) ? (uint32_t)r64() : (uint32_t)rr(1, 2000);
            r = ri(8);
            if (r == 0) want.filterOn = 0;
            else if (g && r > 2) snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s%d %u", sp, n, g);
            else { snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s%d", sp, n); g = 0; }
            if (r == 0) break;
            if (n == 0) want.filterOn = 0;
            else if ((n > 0 && n < RKFilterTypeCount) || n == RKFilterTypeTest1) {
                RKIIRFilter f;
                RKGetFilterCoefficients(&f, (RKFilterType)n);
                want.filter = f;
                want.filterOn = 1;
                if (g) want.config.ringFilterGateCount = g;
            } else ack = "NAK";
            break;
        case METHOD:
            len = DSP('m');
            n = rr(0, 6);
            snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s%d", sp, n);
            want.processor = n == 1 ? RKPulsePairHop : n == 2 || n == 3 || n == 4 ? RKMultiLag : n == 5 ? RKSpectralMoment : RKPulsePair;
            if (n >= 2 && n <= 4) want.lag = n;
            // This method does not go with the clutter filters
            if (n == 1 && want.filter.type >= RKFilterTypeElliptical1 && want.filter.type <= RKFilterTypeElliptical4) want.filterOn = 0;
            expected = n == 1 ? "PulsePairHop" : n == 2 ? "MultiLag-2" : n == 3 ? "MultiLag-3" : n == 4 ? "MultiLag-4" : n == 5 ? "SpectralMoment" : "PulsePair.";
            break;
        case ASK:
            letter = "mnNqst"[ri(6)];
            len = DSP(letter);
            snprintf(cmd + len, sizeof(cmd) - (size_t)len, "%s", sp);
            if (letter == 'm') {
                expected = s0.processor == RKPulsePairHop ? "is PulsePairHop" : s0.processor == RKSpectralMoment ? "is SpectralMoment" : s0.processor == RKPulsePair ? "is PulsePair\r" : s0.lag == 2 ? "MultiLag-2" : s0.lag == 3 ? "MultiLag-3" : s0.lag == 4 ? "MultiLag-4" : NULL;
            } else if (letter == 'n') { snprintf(dtext, sizeof(dtext), " %.4f %.4f", s0.config.noise[0], s0.config.noise[1]); expected = dtext; }
            else if (letter != 'N') { snprintf(dtext, sizeof(dtext), " %.2f", letter == 'q' ? s0.config.SQIThreshold : s0.config.SNRThreshold); expected = dtext; }
            break;
        case RECORD:
            n = ri(4);
            snprintf(cmd, sizeof(cmd), n == 3 ? "r" : "r%s%c", sp, n == 0 ? '0' : n == 1 ? '1' : 'x');
            want.record = n == 3 ? !s0.record : n < 2;
            if (n < 3) want.type = n == 0 ? RKRawDataTypeFromTransceiver : n == 1 ? RKRawDataTypeAfterMatchedFilter : RKRawDataTypeNull;
            expected = !want.record ? "standby" : want.type == RKRawDataTypeFromTransceiver ? "recording raw I/Q" : want.type == RKRawDataTypeAfterMatchedFilter ? "recording I/Q" : "unknown";
            break;
        case VOLUME:
            snprintf(rest, sizeof(rest), "%s", vols[ri(20)]);
            if (chance(0.1)) random_text(rest, 60);
            { char *p = rest; while (*p == ' ') p++; memmove(rest, p, strlen(p) + 1); }
            snprintf(cmd, sizeof(cmd), "v%s%s", sp, rest);
            break;
        case MASTER:
            random_text(rest, 40);
            snprintf(cmd, sizeof(cmd), "%c%s", "byz"[ri(3)], rest);
            break;
        case UNKNOWN:
            random_text(rest, chance(0.05) ? 4090 : chance(0.2) ? 500 : 40);
            if (chance(0.5)) { snprintf(cmd, sizeof(cmd), "d%c%s", "aeghijklopuvwxyzACFM;\t"[ri(22)], rest); if (chance(0.2)) cmd[1] = 0; }
            else snprintf(cmd, sizeof(cmd), "%c%s", "acefgijklmnoqsuwx HPT0-%"[ri(24)], rest);
            ack = "NAK";
            break;
        case CLEAR: snprintf(cmd, sizeof(cmd), "d%sc", chance(0.5) ? " " : ""); break;
        case HELP: snprintf(cmd, sizeof(cmd), "%s", chance(0.5) ? "h" : "help"); break;
        case RESTART: snprintf(cmd, sizeof(cmd), "d%sr", chance(0.5) ? " " : ""); break;
        case FREE:
            random_text(rest, 60);
            snprintf(cmd, sizeof(cmd), "%s", rest);
            break;
    }
    kinds[kind]++;
    char *c = strdup(cmd);       // exactly as long as it is
    forget();
    memset(out, 0x7e, RKMaximumStringLength + 64);
    int withText = !quiet && !chance(0.15);
    int isHelp = kind == HELP || (kind == FREE && cmd[0] == 'h' && (cmd[1] == 0 || !strncmp(cmd, "help", 4)));
    if (kind == HELP) withText = 1;
    int t = RKExecuteCommand(R, c, withText ? out : NULL);
    if (t != RKResultSuccess) VIOL("result", "'%s' returned %d", c, t);
    char show[200];
    snprintf(show, sizeof(show), "%.80s", c);
    // the answer
    size_t size = 0;
    if (withText) {
        size = strnlen(out, isHelp ? 100000 : RKMaximumStringLength);
        if (size == 0 || out[0] == 0x7e) { VIOL("answer", "'%s' (%s) was not answered", show, kindName[kind]); free(c); return; }
        if (!isHelp && size >= RKMaximumStringLength) { VIOL("answer", "the answer to '%s' is longer than a text may be", show); free(c); return; }
    }
    // the devices
    int toDevice = -1;
    const char *told_ = rest;
    if (kind == DEVICE) toDevice = dev;
    else if (kind == MASTER) { toDevice = TRX; told_ = cmd; }
    if (kind == FREE) {
        char f = cmd[0];
        char *p = cmd + (f != 0);
        if (f == 't' || f == 'p' || f == 'h') {
            while (*p == ' ') p++;
            toDevice = cmd[1] == 0 || (f == 'h' && !strncmp(cmd, "help", 4)) ? -1 : f == 't' ? TRX : f == 'p' ? PED : HLT;
            told_ = p;
        } else if (f == 'b' || f == 'y' || f == 'z') { toDevice = TRX; told_ = cmd; }
    }
    if (toDevice >= 0 && !devs[toDevice]) {
        if (withText && strncmp(out, "NAK", 3)) VIOL("answer", "'%s' for a %s that is not there was answered '%.60s'", show, devName[toDevice], out);
        toDevice = -1;
        ack = NULL;
    }
    int shouldTell = toDevice >= 0;
    if (!isHelp) {
        if (ntold != shouldTell) VIOL("device", "'%s' led to %d commands to devices, %d expected (first: '%.60s' to the %s)", show, ntold, shouldTell, ntold ? told[0].text : "", ntold ? devName[told[0].dev] : "");
        else if (shouldTell) {
            if (told[0].dev != toDevice) VIOL("device", "'%s' went to the %s", show, devName[told[0].dev]);
            if (strcmp(told[0].text, told_)) VIOL("device", "'%s' came to the %s as '%.80s'", show, devName[toDevice], told[0].text);
            if (withText && strcmp(out, told[0].answer)) VIOL("answer", "the answer to '%s' is '%.60s', the %s said '%.60s'", show, out, devName[toDevice], told[0].answer);
            stat_add("told", 1);
        }
    } else if (kind == HELP) {
        int n3 = devs[0] + devs[1] + devs[2];
        if (ntold != n3) VIOL("help", "%d of %d devices were asked for help", ntold, n3);
        for (int i = 0; i < ntold; i++) if (strcmp(told[i].text, "help")) VIOL("help", "the %s was asked '%s' for help", devName[told[i].dev], told[i].text);
        // every word of a device is in the help
        for (int i = 0; i < ntold; i++) {
            char *save, *line;
            for (line = strtok_r(told[i].answer, "\r\n", &save); line; line = strtok_r(NULL, "\r\n", &save)) if (!strstr(out, line)) { VIOL("help", "the help lacks '%.60s' of the %s", line, devName[told[i].dev]); break; }
        }
        if (!strstr(out, "RadarKit " __RKVersion__)) VIOL("help", "the help does not end as it should");
        stat_add("helps", 1);
    }
    // own answers: one line, in plain
    if (withText && !shouldTell && kind != HELP && kind != FREE && kind != VOLUME && !(kind == DEVICE || kind == MASTER)) {
        if (ack && strncmp(out, ack, 3)) VIOL("answer", "'%s' (%s) was answered '%.80s', %s expected", show, kindName[kind], out, ack);
        if (expected && !strstr(out, expected)) VIOL("answer", "'%s' (%s) was answered '%.80s', where '%s' is expected", show, kindName[kind], out, expected);
        size_t e = strlen(RKEOL);
        if (kind != UNKNOWN && (size < e || strcmp(out + size - e, RKEOL))) VIOL("answer", "the answer '%.80s' to '%s' does not end a line", out, show);
    }
    if (withText && kind == FREE && !shouldTell && cmd[0] != 'h' && cmd[0] != 'v' && strncmp(out, "ACK", 3) && strncmp(out, "NAK", 3)) VIOL("answer", "'%s' was answered '%.80s'", show, out);
    // the volumes
    int isVol = kind == VOLUME || (kind == FREE && cmd[0] == 'v');
    if (isVol && steer) {
        char *p = cmd + 1;
        while (*p == ' ') p++;
        memset(out2, 0x7e, 64);
        RKSteerEngineExecuteString(twin, p, out2);
        if (withText && strcmp(out, out2)) VIOL("volume", "'%s' was answered '%.60s', the steer engine says '%.60s'", show, out, out2);
        const RKScanObject *x = &R->steerEngine->vcpHandle, *y = &twin->vcpHandle;
        if (x->sweepCount != y->sweepCount || x->onDeckCount != y->onDeckCount || x->inTheHoleCount != y->inTheHoleCount || x->option != y->option) VIOL("volume", "after '%s' there are %d/%d/%d sweeps, %d/%d/%d expected", show, x->sweepCount, x->onDeckCount, x->inTheHoleCount, y->sweepCount, y->onDeckCount, y->inTheHoleCount);
        stat_add("volumes", 1);
    } else if (isVol && withText && !steer && strncmp(out, "NAK", 3)) VIOL("volume", "'%s' was answered '%.60s' without a steer engine", show, out);
    // the settings
    state_of(&got);
    if (kind == FREE) {
        // whatever it was: only what its letter is for
        char f = cmd[0], q = cmd[1] == ' ' ? cmd[2] : cmd[1];
        if (f == 'd') {
            if (q == 'n' || q == 'N') memcpy(want.config.noise, got.config.noise, sizeof(want.config.noise));
            if (q == 's' || q == 't') want.config.SNRThreshold = got.config.SNRThreshold;
            if (q == 'q') want.config.SQIThreshold = got.config.SQIThreshold;
            if (q == 'f') { want.filter = got.filter; want.filterOn = got.filterOn; want.config.ringFilterGateCount = got.config.ringFilterGateCount; }
            if (q == 'm') { want.processor = got.processor; want.lag = got.lag; want.filterOn &= got.filterOn; }
        }
        if (f == 'r') { want.record = got.record; want.type = got.type; }
    }
    if (isVol) memcpy(want.config.vcpDefinition, got.config.vcpDefinition, sizeof(want.config.vcpDefinition));
    if ((kind == NOISE || kind == NOISEDB) && r) {
        for (int i = 0; i < 2; i++) if (!closef(got.config.noise[i], kind == NOISE ? (i ? b : a) : pow(10.0, (i ? b : a) / 10.0))) VIOL("setting", "the noise is %g after '%s'", got.config.noise[i], show);
        memcpy(want.config.noise, got.config.noise, sizeof(want.config.noise));
    }
    if (kind == SNR || kind == SQI) {
        RKFloat v = kind == SNR ? got.config.SNRThreshold : got.config.SQIThreshold;
        if (!closef(v, a)) VIOL("setting", "the threshold is %g after '%s'", v, show);
        want.config.SNRThreshold = got.config.SNRThreshold;
        want.config.SQIThreshold = got.config.SQIThreshold;
        if (kind == SNR && s0.config.SQIThreshold != got.config.SQIThreshold) VIOL("setting", "'%s' changed the SQI threshold", show);
        if (kind == SQI && s0.config.SNRThreshold != got.config.SNRThreshold) VIOL("setting", "'%s' changed the SNR threshold", show);
    }
    if (kind == RESTART || (kind == FREE && cmd[0] == 'd')) { want.config.waveform = got.config.waveform; want.config.waveformDecimate = got.config.waveformDecimate; }   // made anew
    const char *d = differs(&want, &got);
    if (d) VIOL("setting", "%s is not as it should be after '%s' (%s; filter %d to %d)", d, show, kindName[kind], s0.filterOn, got.filterOn);
    if (differs(&s0, &got)) stat_add("changed", 1);
    if (kind == CLEAR) {
        for (uint32_t i = 0; i < R->desc.pulseBufferDepth; i++) {
            RKPulse *p = RKGetPulseFromBuffer(R->pulses, i);
            if (p->header.s != RKPulseStatusVacant || p->header.gateCount) { VIOL("clear", "pulse %u holds data after '%s'", i, show); break; }
        }
        for (uint32_t i = 0; i < R->desc.rayBufferDepth; i++) if (RKGetRayFromBuffer(R->rays, i)->header.s != RKRayStatusVacant) { VIOL("clear", "ray %u holds data after '%s'", i, show); break; }
        stat_add("clears", 1);
    }
    if (kind == RESTART) stat_add("restarts", 1);
    stat_add("commands", 1);
    DISTINCTF("%d %c%c %d %d %d", kind, cmd[0], cmd[0] ? cmd[1] : 0, devs[0] + 2 * devs[1] + 4 * devs[2], (int)strlen(cmd) / 8, withText);
    free(c);
}

// ---- several operators at the same time -------------------------------------------------------------------------------
typedef struct { int id, n, wrong; uint64_t s; double last; char note[200]; pthread_t tid; volatile int on; } Op;
static void *operator(void *in) {
    Op *o = in;
    char *text = malloc(RKMaximumStringLength * 2), cmd[200];
    for (int i = 0; i < o->n; i++) {
        uint64_t z = vp_mix(&o->s);
        int k = (int)(z % 5), dev = (int)((z >> 8) % DEVS);
        memset(text, 0x7e, 16);
        if (k < 2) snprintf(cmd, sizeof(cmd), "%c op%d-%d", "tph"[dev], o->id, i);
        else if (k == 2) { o->last = (double)(z >> 20 & 0xfff) / 8.0; snprintf(cmd, sizeof(cmd), "%s %.4f", o->id == 0 ? "ds" : o->id == 1 ? "dq" : "dn 1", o->last); }
        else if (k == 3) snprintf(cmd, sizeof(cmd), "df %d %d", (int)(z >> 30) & 7, (int)(z >> 40 & 511) + 1);
        else if (k == 4) { if (steer && z >> 60 & 1) snprintf(cmd, sizeof(cmd), "v ipp %d,%d 30 18", (int)(z >> 30) & 15, (int)(z >> 40) & 15); else snprintf(cmd, sizeof(cmd), "dm %d", (int)(z >> 30) & 7); }
        RKExecuteCommand(R, cmd, text);
        if (text[0] == 0x7e || strnlen(text, RKMaximumStringLength) >= RKMaximumStringLength) { o->wrong++; snprintf(o->note, sizeof(o->note), "'%s' was not answered properly", cmd); }
        else if (k < 2 && devs[dev]) {
            // the answer of this device to this command
            int seen = 0;
            pthread_mutex_lock(&tlock);
            for (int j = 0; j < ntold; j++) if (!strcmp(told[j].text, cmd + 2) && told[j].dev == dev) { seen++; if (strcmp(told[j].answer, text)) { o->wrong++; snprintf(o->note, sizeof(o->note), "'%s' was answered '%.60s'", cmd, text); } }
            pthread_mutex_unlock(&tlock);
            if (seen != 1) { o->wrong++; snprintf(o->note, sizeof(o->note), "'%s' came to its device %d times", cmd, seen); }
        } else if (k >= 2 && strncmp(text, "ACK", 3) && k != 3) { o->wrong++; snprintf(o->note, sizeof(o->note), "'%s' was answered '%.60s'", cmd, text); }
    }
    o->on = 0;
    free(text);
    return NULL;
}
static void together(void) {
    Op o[3];
    int n = rr(2, 3);
    forget();
    State s0, s1;
    state_of(&s0);
    for (int i = 0; i < n; i++) { memset(&o[i], 0, sizeof(Op)); o[i].id = i; o[i].n = rr(10, 60); o[i].s = r64(); o[i].last = NAN; o[i].on = 1; }
    for (int i = 0; i < n; i++) pthread_create(&o[i].tid, NULL, operator, &o[i]);
    for (int i = 0; i < n; i++) pthread_join(o[i].tid, NULL);
    state_of(&s1);
    for (int i = 0; i < n; i++) {
        if (o[i].wrong) VIOL("together", "%d of %d commands went wrong with %d operators: %s", o[i].wrong, o[i].n, n, o[i].note);
        double v = i == 0 ? s1.config.SNRThreshold : i == 1 ? s1.config.SQIThreshold : s1.config.noise[1], u = i == 0 ? s0.config.SNRThreshold : i == 1 ? s0.config.SQIThreshold : s0.config.noise[1];
        if (isnan(o[i].last) ? v != u : !closef((RKFloat)v, o[i].last)) VIOL("together", "operator %d of %d set %g last, the radar is at %g", i, n, o[i].last, v);
        stat_add("together", o[i].n);
    }
    int f = R->pulseRingFilterEngine->filter.type;
    if (f < 0 || (f >= RKFilterTypeCount && f != RKFilterTypeUserDefined && f != RKFilterTypeTest1)) VIOL("together", "the ring filter has type %d after several operators set it", f);
}
static void one(uint64_t index) {
    int viol0 = vp_viol;
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    steer = chance(0.8);
    desc.initFlags = RKInitFlagAllocEverythingQuiet | RKInitFlagSignalProcessor;
    if (!steer) desc.initFlags &= ~RKInitFlagPositionSteerEngine;
    desc.pulseToRayRatio = 1;
    desc.pulseCapacity = 256;
    desc.configBufferDepth = (uint32_t)rr(5, 12);
    desc.healthBufferDepth = 10;
    desc.statusBufferDepth = 10;
    desc.positionBufferDepth = 100;
    desc.pulseBufferDepth = 300;
    desc.rayBufferDepth = 60;
    desc.healthNodeCount = RKHealthNodeCount;
    desc.pulseTicsPerSecond = desc.positionTicsPerSecond = 1000000;
    desc.wavelength = 0.03f;
    snprintf(desc.name, sizeof(desc.name), "radar%d", (int)index);
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "RK");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s", vp_scratch);
    R = RKInitWithDesc(desc);
    RKSetProcessingCoreCounts(R, 1, 1, 1);
    for (int i = 0; i < DEVS; i++) { devs[i] = chance(0.8); answerSize[i] = chance(0.2) ? rr(1000, 4000) : rr(10, 200); }
    if (devs[TRX]) RKSetTransceiver(R, &handles[TRX], dev_init, dev_exec, dev_free);
    if (devs[PED]) RKSetPedestal(R, &handles[PED], dev_init, dev_exec, dev_free);
    if (devs[HLT]) RKSetHealthRelay(R, &handles[HLT], dev_init, dev_exec, dev_free);
    RKSetWaveformToImpulse(R);
    if (RKGoLive(R) != RKResultSuccess) { VIOL("live", "the radar did not go live"); RKFree(R); return; }
    RKConfig *cb = calloc(8, sizeof(RKConfig));
    uint32_t ci = 0, pi = 0;
    RKPosition *pb = calloc(100, sizeof(RKPosition));
    RKRadarDesc td = R->desc;
    td.configBufferDepth = 8;
    td.positionBufferDepth = 100;
    steer = R->steerEngine != NULL;
    if (steer) {
        twin = RKSteerEngineInit();
        RKSteerEngineSetEssentials(twin, &td, pb, &pi, cb, &ci);
        twin->vcpHandle = R->steerEngine->vcpHandle;
    }
    out = malloc(RKMaximumStringLength * 5);
    out2 = malloc(RKMaximumStringLength * 5);
    int n = rr(100, 300);
    for (int i = 0; i < n && vp_viol == viol0; i++) one_command(0);
    for (int i = rr(1, 4); i > 0 && vp_viol == viol0; i--) together();
    forget();
    if (steer) RKSteerEngineFree(twin);
    free(cb);
    free(pb);
    free(out);
    free(out2);
    RKStop(R);
    RKFree(R);
    if (index % 8 == 0) sample("%d commands: %llu to devices, %llu filter, %llu unknown, %llu free text", n, (unsigned long long)kinds[DEVICE], (unsigned long long)kinds[FILTER], (unsigned long long)kinds[UNKNOWN], (unsigned long long)kinds[FREE]);
}
int main(int argc, char **argv) { return vp_main(argc, argv, one); }
