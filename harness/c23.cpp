// C23: descriptive names, default mappings and descriptions
#include "segd_ref.hpp"
#include "CommonSEGY.hpp"
#include <type_traits>
using namespace dref;
using SY = sedaman::CommonSEGY;

static int constexpr MAX_ENUM = 64;
struct Pub { uint32_t off; char const* name; VT type; };
static std::vector<Pub> const segy0 {
    { 0, "TRC_SEQ_LINE", VT::int32_t },
    { 4, "TRC_SEQ_SGY", VT::int32_t },
    { 8, "FFID", VT::int32_t },
    { 12, "CHAN", VT::int32_t },
    { 16, "ESP", VT::int32_t },
    { 20, "ENS_NO", VT::int32_t },
    { 24, "SEQ_NO", VT::int32_t },
    { 28, "TRACE_ID", VT::int16_t },
    { 30, "VERT_SUM", VT::int16_t },
    { 32, "HOR_SUM", VT::int16_t },
    { 34, "DATA_USE", VT::int16_t },
    { 36, "OFFSET", VT::int32_t },
    { 40, "R_ELEV", VT::int32_t },
    { 44, "S_ELEV", VT::int32_t },
    { 48, "S_DEPTH", VT::int32_t },
    { 52, "R_DATUM", VT::int32_t },
    { 56, "S_DATUM", VT::int32_t },
    { 60, "S_WATER", VT::int32_t },
    { 64, "R_WATER", VT::int32_t },
    { 68, "ELEV_SCALAR", VT::int16_t },
    { 70, "COORD_SCALAR", VT::int16_t },
    { 72, "SOU_X", VT::int32_t },
    { 76, "SOU_Y", VT::int32_t },
    { 80, "REC_X", VT::int32_t },
    { 84, "REC_Y", VT::int32_t },
    { 88, "COORD_UNITS", VT::int16_t },
    { 90, "WEATH_VEL", VT::int16_t },
    { 92, "SUBWEATH_VEL", VT::int16_t },
    { 94, "S_UPHOLE", VT::int16_t },
    { 96, "R_UPHOLE", VT::int16_t },
    { 98, "S_STAT", VT::int16_t },
    { 100, "R_STAT", VT::int16_t },
    { 102, "TOT_STAT", VT::int16_t },
    { 104, "LAG_A", VT::int16_t },
    { 106, "LAG_B", VT::int16_t },
    { 108, "DELAY_TIME", VT::int16_t },
    { 110, "MUTE_START", VT::int16_t },
    { 112, "MUTE_END", VT::int16_t },
    { 114, "SAMP_NUM", VT::int16_t },
    { 116, "SAMP_INT", VT::int16_t },
    { 118, "GAIN_TYPE", VT::int16_t },
    { 120, "GAIN_CONST", VT::int16_t },
    { 122, "INIT_GAIN", VT::int16_t },
    { 124, "CORRELATED", VT::int16_t },
    { 126, "SW_START", VT::int16_t },
    { 128, "SW_END", VT::int16_t },
    { 130, "SW_LENGTH", VT::int16_t },
    { 132, "SW_TYPE", VT::int16_t },
    { 134, "SW_TAPER_START", VT::int16_t },
    { 136, "SW_TAPER_END", VT::int16_t },
    { 138, "TAPER_TYPE", VT::int16_t },
    { 140, "ALIAS_FILT_FREQ", VT::int16_t },
    { 142, "ALIAS_FILT_SLOPE", VT::int16_t },
    { 144, "NOTCH_FILT_FREQ", VT::int16_t },
    { 146, "NOTCH_FILT_SLOPE", VT::int16_t },
    { 148, "LOW_CUT_FREQ", VT::int16_t },
    { 150, "HIGH_CUT_FREQ", VT::int16_t },
    { 152, "LOW_CUT_SLOPE", VT::int16_t },
    { 154, "HIGH_CUT_SLOPE", VT::int16_t },
    { 156, "YEAR", VT::int16_t },
    { 158, "DAY", VT::int16_t },
    { 160, "HOUR", VT::int16_t },
    { 162, "MINUTE", VT::int16_t },
    { 164, "SECOND", VT::int16_t },
    { 166, "TIME_BASIS_CODE", VT::int16_t },
    { 168, "TRACE_WEIGHT", VT::int16_t },
    { 170, "GROUP_NUM_ROLL", VT::int16_t },
    { 172, "GROUP_NUM_FIRST", VT::int16_t },
    { 174, "GROUP_NUM_LAST", VT::int16_t },
    { 176, "GAP_SIZE", VT::int16_t },
    { 178, "OVER_TRAVEL", VT::int16_t },
    { 180, "CDP_X", VT::int32_t },
    { 184, "CDP_Y", VT::int32_t },
    { 188, "INLINE", VT::int32_t },
    { 192, "XLINE", VT::int32_t },
    { 196, "SP_NUM", VT::int32_t },
    { 200, "SP_NUM_SCALAR", VT::int16_t },
    { 202, "TR_VAL_UNIT", VT::int16_t },
    { 204, "TRANS_CONST_MANT", VT::int32_t },
    { 208, "TRANS_CONST_EXP", VT::int16_t },
    { 210, "TRANS_UNITS", VT::int16_t },
    { 212, "DEVICE_ID", VT::int16_t },
    { 214, "TIME_SCALAR", VT::int16_t },
    { 216, "SOURCE_TYPE", VT::int16_t },
    { 218, "SOU_V_DIR", VT::int16_t },
    { 220, "SOU_X_DIR", VT::int16_t },
    { 222, "SOU_I_DIR", VT::int16_t },
    { 224, "SOURCE_MEASUREMENT_MANT", VT::int32_t },
    { 228, "SOURCE_MEASUREMENT_EXP", VT::int16_t },
    { 230, "SOU_MEAS_UNIT", VT::int16_t },
};

static std::vector<Pub> const segy1 {
    { 0, "TRC_SEQ_LINE", VT::uint64_t },
    { 8, "TRC_SEQ_SGY", VT::uint64_t },
    { 16, "FFID", VT::uint64_t },
    { 24, "ENS_NO", VT::uint64_t },
    { 32, "R_ELEV", VT::ieee_double },
    { 40, "R_DEPTH", VT::ieee_double },
    { 48, "S_ELEV", VT::ieee_double },
    { 56, "S_DEPTH", VT::ieee_double },
    { 64, "R_DATUM", VT::ieee_double },
    { 72, "S_DATUM", VT::ieee_double },
    { 80, "S_WATER", VT::ieee_double },
    { 88, "R_WATER", VT::ieee_double },
    { 96, "SOU_X", VT::ieee_double },
    { 104, "SOU_Y", VT::ieee_double },
    { 112, "REC_X", VT::ieee_double },
    { 120, "REC_Y", VT::ieee_double },
    { 128, "OFFSET", VT::ieee_double },
    { 136, "SAMP_NUM", VT::int32_t },
    { 140, "NANOSECOND", VT::int32_t },
    { 144, "SAMP_INT", VT::ieee_double },
    { 152, "CABLE_NUM", VT::int32_t },
    { 156, "ADD_TRC_HDR_NUM", VT::int16_t },
    { 158, "LAST_TRC_FLAG", VT::int16_t },
    { 160, "CDP_X", VT::ieee_double },
    { 168, "CDP_Y", VT::ieee_double },
};

static std::vector<std::vector<Pub>> const pub_sercel_428xl {
    {
        { 0, "R_LINE", VT::uint24_t },
        { 3, "R_POINT", VT::uint24_t },
        { 6, "R_POINT_IDX", VT::uint8_t },
        { 7, "SAMP_NUM", VT::uint24_t },
        { 20, "SENSOR_TYPE", VT::uint8_t },
    },
    {
        { 0, "REC_X", VT::ieee_double },
        { 8, "REC_Y", VT::ieee_double },
        { 16, "R_ELEV", VT::ieee_single },
        { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
        { 28, "TRACE_NUMBER", VT::uint32_t },
    },
    {
        { 0, "RESIST_LOW_LIMIT", VT::ieee_single },
        { 4, "RESIST_HIGH_LIMIT", VT::ieee_single },
        { 8, "RESIST_VALUE", VT::ieee_single },
        { 12, "TILT_LIMIT", VT::ieee_single },
        { 16, "TILT_VALUE", VT::ieee_single },
        { 20, "RESIST_ERROR", VT::uint8_t },
        { 21, "TILT_ERROR", VT::uint8_t },
    },
    {
        { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
        { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
        { 8, "CAPACIT_VALUE", VT::ieee_single },
        { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
        { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
        { 20, "CUT_OFF_VALUE", VT::ieee_single },
        { 24, "CAPACIT_ERROR", VT::uint8_t },
        { 25, "CUT_OFF_ERROR", VT::uint8_t },
    },
    {
        { 0, "LEAKAGE_LIMIT", VT::ieee_single },
        { 4, "LEAKAGE_VALUE", VT::ieee_single },
        { 24, "LEAKAGE_ERROR", VT::uint8_t },
    },
    {
        { 0, "UNIT_TYPE", VT::uint8_t },
        { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
        { 4, "CHANNEL_NUM", VT::uint8_t },
        { 8, "FDU_ASS_TYPE", VT::uint8_t },
        { 9, "FDU_ASS_SERIAL", VT::uint24_t },
        { 12, "FDU_ASS_LOC", VT::uint8_t },
        { 16, "FDU_UNIT_TYPE", VT::uint8_t },
        { 17, "CHANNEL_TYPE", VT::uint8_t },
        { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
    },
    {
        { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
        { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
        { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
        { 5, "CHAN_FILTER", VT::uint8_t },
        { 6, "CHAN_DATA_ERROR", VT::uint8_t },
        { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
        { 8, "SAMP_TO_V_CONV", VT::ieee_single },
        { 12, "NUM_OF_STACKS_NOISY", VT::uint8_t },
        { 13, "NUM_OF_STACKS_LOW", VT::uint8_t },
        { 14, "CHAN_TYPE_ID", VT::uint8_t },
        { 15, "CHAN_PROCESS", VT::uint8_t },
        { 16, "TRC_MAX_VALUE", VT::ieee_single },
        { 20, "TRC_MAX_TIME", VT::uint32_t },
        { 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
    },
};

static std::vector<std::vector<Pub>> const pub_sercel_428 {
    {
        { 0, "R_LINE", VT::uint24_t },
        { 3, "R_POINT", VT::uint24_t },
        { 6, "R_POINT_IDX", VT::uint8_t },
        { 7, "SAMP_NUM", VT::uint24_t },
        { 20, "SENSOR_TYPE", VT::uint8_t },
    },
    {
        { 0, "REC_X", VT::ieee_double },
        { 8, "REC_Y", VT::ieee_double },
        { 16, "R_ELEV", VT::ieee_single },
        { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
        { 28, "TRACE_NUMBER", VT::uint32_t },
    },
    {
        { 0, "DC_OFFSET", VT::ieee_single },
    },
    {
        { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
        { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
        { 8, "CAPACIT_VALUE", VT::ieee_single },
        { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
        { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
        { 20, "CUT_OFF_VALUE", VT::ieee_single },
        { 24, "CAPACIT_ERROR", VT::uint8_t },
        { 25, "CUT_OFF_ERROR", VT::uint8_t },
    },
    {
        { 0, "LEAKAGE_LIMIT", VT::ieee_single },
        { 4, "LEAKAGE_VALUE", VT::ieee_single },
        { 24, "LEAKAGE_ERROR", VT::uint8_t },
    },
    {
        { 0, "UNIT_TYPE", VT::uint8_t },
        { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
        { 4, "CHANNEL_NUM", VT::uint8_t },
        { 8, "FDU_ASS_TYPE", VT::uint8_t },
        { 9, "FDU_ASS_SERIAL", VT::uint24_t },
        { 12, "FDU_ASS_LOC", VT::uint8_t },
        { 16, "FDU_UNIT_TYPE", VT::uint8_t },
        { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
        { 24, "EXT_UNIT_SERIAL", VT::uint32_t },
        { 28, "EXT_FDU_ASS_SERIAL", VT::uint32_t },
    },
    {
        { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
        { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
        { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
        { 5, "CHAN_FILTER", VT::uint8_t },
        { 6, "CHAN_DATA_ERROR", VT::uint8_t },
        { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
        { 8, "SAMP_TO_V_CONV", VT::ieee_single },
        { 13, "REMOVED_OFFSET", VT::uint8_t },
        { 14, "CHAN_TYPE_ID", VT::uint8_t },
        { 15, "CHAN_PROCESS", VT::uint8_t },
        { 16, "ANAL_LOW_CUR_FILT", VT::ieee_single },
        { 20, "DIG_LOW_CUT_FILT", VT::ieee_single },
        { 24, "NUM_OF_EDITIONS", VT::uint32_t },
        { 28, "COMP_LOW_CUT_FILT", VT::ieee_single },
    },
};

static std::vector<std::vector<Pub>> const pub_sercel_408 {
    {
        { 0, "R_LINE", VT::uint24_t },
        { 3, "R_POINT", VT::uint24_t },
        { 6, "R_POINT_IDX", VT::uint8_t },
        { 7, "SAMP_NUM", VT::uint24_t },
        { 20, "SENSOR_TYPE", VT::uint8_t },
    },
    {
        { 0, "REC_X", VT::ieee_double },
        { 8, "REC_Y", VT::ieee_double },
        { 16, "R_ELEV", VT::ieee_single },
        { 20, "SERCEL_SENSOR_TYPE", VT::uint8_t },
    },
    {
        { 0, "DC_OFFSET", VT::ieee_single },
    },
    {
        { 0, "CAPACIT_LOW_LIMIT", VT::ieee_single },
        { 4, "CAPACIT_HIGH_LIMIT", VT::ieee_single },
        { 8, "CAPACIT_VALUE", VT::ieee_single },
        { 12, "CUT_OFF_LOW_LIMIT", VT::ieee_single },
        { 16, "CUT_OFF_HIGH_LIMIT", VT::ieee_single },
        { 20, "CUT_OFF_VALUE", VT::ieee_single },
        { 24, "CAPACIT_ERROR", VT::uint8_t },
        { 25, "CUT_OFF_ERROR", VT::uint8_t },
    },
    {
        { 0, "LEAKAGE_LIMIT", VT::ieee_single },
        { 4, "LEAKAGE_VALUE", VT::ieee_single },
        { 24, "LEAKAGE_ERROR", VT::uint8_t },
    },
    {
        { 0, "UNIT_TYPE", VT::uint8_t },
        { 1, "UNIT_SERIAL_NUM", VT::uint24_t },
        { 4, "CHANNEL_NUM", VT::uint8_t },
        { 8, "FDU_ASS_TYPE", VT::uint8_t },
        { 9, "FDU_ASS_SERIAL", VT::uint24_t },
        { 12, "FDU_ASS_LOC", VT::uint8_t },
        { 16, "FDU_UNIT_TYPE", VT::uint8_t },
        { 17, "CHANNEL_TYPE", VT::uint8_t },
        { 20, "SENSOR_SENSITIVITY", VT::ieee_single },
    },
    {
        { 0, "CONTROL_UNIT_TYPE", VT::uint8_t },
        { 1, "CONTROL_UNIT_SERIAL", VT::uint24_t },
        { 4, "CHAN_GAIN_SCALE", VT::uint8_t },
        { 5, "CHAN_FILTER", VT::uint8_t },
        { 6, "CHAN_DATA_ERROR", VT::uint8_t },
        { 7, "CHAN_EDIT_STATUS", VT::uint8_t },
        { 8, "SAMP_TO_V_CONV", VT::ieee_single },
        { 14, "CHAN_TYPE_ID", VT::uint8_t },
        { 15, "CHAN_PROCESS", VT::uint8_t },
        { 16, "TRC_MAX_VALUE", VT::ieee_single },
        { 20, "TRC_MAX_TIME", VT::uint32_t },
        { 24, "NUM_OF_INTERPOLAT", VT::uint32_t },
        { 28, "COMP_LOW_CUT_FILT", VT::ieee_single },
    },
};

// ---- enumerators of an enum class, as the compiler knows them ------------------
template <class E, E V> char const* pretty() { return __PRETTY_FUNCTION__; }
template <class E, int... I> void all_pretty(char const** out, std::integer_sequence<int, I...>) { ((out[I] = pretty<E, static_cast<E>(I)>()), ...); }
static string enum_name(string const& s)
{
    // ... [with E = ns::Enum; E V = ns::Enum::NAME], or ... = (ns::Enum)44]
    size_t p = s.rfind("V = ") + 4;
    size_t q = s.find_first_of(";],", p);
    string n = s.substr(p, q - p);
    if (n.empty() || n[0] == '(')
        return {};
    return n.substr(n.rfind(':') + 1);
}

static string norm(string const& s)
{
    string r;
    for (char ch : s)
        if (isalnum(static_cast<unsigned char>(ch)))
            r += static_cast<char>(tolower(ch));
    return r;
}
// what a word of an identifier may look like in a text
static std::vector<string> forms(string const& tok)
{
    static std::map<string, std::vector<string>> const m {
        { "num", { "num", "no" } }, { "no", { "num", "no" } }, { "ch", { "chan" } }, { "chan", { "chan", "tracenumber" } }, { "tr", { "trac" } }, { "trc", { "trac" } }, { "ext", { "ext" } },
        { "extd", { "ext" } }, { "hdr", { "header" } }, { "blks", { "block", "blk" } }, { "blocks", { "block", "length" } }, { "gen", { "gen" } }, { "add", { "add" } },
        { "ens", { "ensem" } }, { "aux", { "aux" } }, { "samp", { "sampl" } }, { "sampling", { "sampl" } }, { "int", { "interval" } }, { "orig", { "orig" } }, { "vert", { "vert", "veri" } },
        { "sw", { "sweep" } }, { "freq", { "freq" } }, { "corr", { "correl" } }, { "bin", { "binary" } }, { "recov", { "recov" } }, { "amp", { "amplitude" } },
        { "meth", { "method" } }, { "sig", { "signal" } }, { "pol", { "polar" } }, { "vib", { "vibr" } }, { "rev", { "rev" } }, { "ver", { "rev", "ver" } }, { "off", { "offset" } },
        { "endianness", { "byteorder", "endian" } }, { "skew", { "32byte", "skew" } }, { "per", { "per", "in" } }, { "abbr", { "abbr" } }, { "id", { "id" } }, { "are", { "area" } },
        { "sourcce", { "source" } }, { "alibration", { "calibration" } }, { "dimention", { "dimension" } }, { "hor", { "hor" } }, { "err", { "err" } }, { "semi", { "semi" } },
        { "pos1", { "position1" } }, { "pos2", { "position2" } }, { "coord1", { "coord1" } }, { "orient", { "orient" } }, { "ref", { "ref" } }, { "sys", { "sys" } },
        { "rot", { "rot" } }, { "instr", { "instr" } }, { "extednded", { "ext" } }, { "extended", { "ext" } }, { "manufacturers", { "manuf" } }, { "number", { "num", "no" } },
        { "mode", { "mode", "absolute" } }, { "rel", { "rel", "absolute" } }, { "timestamp", { "timestamp" } }, { "subscans", { "subscan" } }, { "trailer", { "trailer" } },
        // trace headers
        { "s", { "source" } }, { "sou", { "source" } }, { "r", { "receiver", "reseiver", "group" } }, { "rec", { "receiver", "reseiver", "group" } }, { "elev", { "elevation" } },
        { "water", { "water" } }, { "x", { "coordinatex", "xcoordinate", "crossline", "x" } }, { "y", { "coordinatey", "ycoordinate", "y" } }, { "v", { "vertical" } }, { "i", { "inline" } },
        { "dir", { "direction" } }, { "xline", { "crossline", "xline" } }, { "seq", { "sequence", "tracenumberwithin" } }, { "sgy", { "segy", "file" } }, { "ffid", { "fieldrecordnum" } }, { "esp", { "sourcepoint" } },
        { "cdp", { "cdp" } }, { "vel", { "veloc" } }, { "weath", { "weather" } }, { "subweath", { "subweath" } }, { "stat", { "static" } }, { "tot", { "total" } }, { "const", { "const" } },
        { "init", { "init" } }, { "filt", { "filter" } }, { "sum", { "sum", "stack" } }, { "sp", { "shotpoint", "sp" } }, { "val", { "value" } }, { "trans", { "transduc" } }, { "mant", { "mant" } },
        { "exp", { "exp" } }, { "meas", { "meas" } }, { "nanosecond", { "nanosec" } }, { "first", { "numberone", "first" } }, { "roll", { "roll" } }, { "a", { "timea", "crsa" } }, { "b", { "timeb", "crsb" } },
        { "lag", { "lag" } }, { "offset", { "offset", "distance" } }, { "alias", { "alias" } }, { "measurement", { "measurement" } }, { "measure", { "measure" } }, { "rec_mode", { "recordingmode" } },
        { "east", { "east" } }, { "north", { "north" } }, { "crsref", { "crsref" } }, { "reshoot", { "reshoot" } }, { "crossline", { "crossline" } }, { "inline", { "inline" } }
    };
    auto it = m.find(tok);
    return it == m.end() ? std::vector<string> { tok } : it->second;
}
static double score(string const& ident, string const& text)
{
    string t = norm(text), tok;
    double n = 0, hit = 0;
    string id = ident + "_";
    for (char ch : id)
        if (ch == '_') {
            if (!tok.empty()) {
                ++n;
                for (auto& f : forms(tok))
                    if (t.find(f) != string::npos) {
                        ++hit;
                        break;
                    }
            }
            tok.clear();
        } else
            tok += static_cast<char>(tolower(ch));
    return n ? hit / n : 0;
}
// no exchange of texts between names (of any length) fits the names better
static void check_assignment(Ctx& c, string const& kind, std::vector<string> const& names, std::vector<string> const& texts)
{
    size_t n = names.size();
    for (size_t i = 0; i < n; ++i) {
        MON_CHECK(!texts[i].empty() && !norm(texts[i]).empty(), (kind + "/empty").c_str(), "%s: name %s has an empty description", kind.c_str(), names[i].c_str());
        MON_CHECK(texts[i].size() < 400, (kind + "/long").c_str(), "%s: name %s has a description of %zu characters", kind.c_str(), names[i].c_str(), texts[i].size());
        for (size_t j = 0; j < i; ++j)
            MON_CHECK(norm(texts[i]) != norm(texts[j]), (kind + "/duplicate").c_str(), "%s: %s and %s have the same description \"%s\"", kind.c_str(), names[j].c_str(), names[i].c_str(), texts[i].c_str());
        c.count("descriptions");
        c.nontrivial(kind + names[i] + texts[i]);
    }
    std::vector<std::vector<double>> g(n, std::vector<double>(n)), via = g;
    std::vector<std::vector<size_t>> nx(n, std::vector<size_t>(n));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            g[i][j] = score(names[i], texts[j]) - score(names[i], texts[i]);
            nx[i][j] = j;
        }
    double const eps = 1e-6;
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (g[i][k] + g[k][j] > g[i][j] + eps && i != k && j != k) {
                    g[i][j] = g[i][k] + g[k][j];
                    nx[i][j] = nx[i][k];
                    if (i == j) {
                        string cyc;
                        size_t v = i;
                        for (int q = 0; q < 6; ++q) {
                            cyc += names[v] + "=\"" + texts[v] + "\" ";
                            v = nx[v][i];
                            if (v == i)
                                break;
                        }
                        MON_CHECK(g[i][i] <= eps, (kind + "/mismatch").c_str(), "%s: descriptions are exchanged or shifted: %s", kind.c_str(), cyc.c_str());
                    }
                }
    c.count("assignments_checked");
    double sum = 0;
    for (size_t i = 0; i < n; ++i) {
        double sc = score(names[i], texts[i]);
        MON_CHECK(sc > 0, (kind + "/other-subject").c_str(), "%s: description \"%s\" has no word in common with its name %s", kind.c_str(), texts[i].c_str(), names[i].c_str());
        sum += sc;
    }
    c.sample(kind, fmt("%zu names, mean agreement %.2f", n, n ? sum / static_cast<double>(n) : 1));
    MON_CHECK(n == 0 || sum / static_cast<double>(n) >= 0.5, (kind + "/agreement").c_str(), "%s: descriptions do not speak of their names", kind.c_str());
}
template <class H> static void check_class(Ctx& c, char const* cls)
{
    c.note(cls);
    using E = typename H::Name;
    char const* raw[MAX_ENUM];
    all_pretty<E>(raw, std::make_integer_sequence<int, MAX_ENUM>());
    std::vector<string> names, texts, all;
    for (auto* p : raw)
        all.push_back(enum_name(p));
    for (int i = 0; i < MAX_ENUM; ++i)
        if (!all[static_cast<size_t>(i)].empty()) {
            char const* t = H::name_as_string(static_cast<E>(i));
            MON_CHECK(t != nullptr, (string(cls) + "/null").c_str(), "%s: name %s has no description", cls, all[static_cast<size_t>(i)].c_str());
            names.push_back(all[static_cast<size_t>(i)]);
            texts.push_back(t);
            MON_CHECK(texts.back() == H::name_as_string(static_cast<E>(i)), "unstable", "%s: description changes", cls);
        }
    MON_CHECK(all.back().empty(), "harness/too-many-enumerators", "%s: more enumerators than the monitor looks at", cls);
    MON_CHECK(!names.empty(), "harness/no-enumerators", "%s: no enumerators found", cls);
    check_assignment(c, cls, names, texts);
    c.count(string("class:") + cls);
}
template <class M> static void check_map(Ctx& c, string const& kind, M const& got, std::vector<Pub> const& want, uint32_t size)
{
    uint32_t end = 0;
    std::set<string> names;
    for (auto& e : got) {
        MON_CHECK(e.first >= end, (kind + "/overlap").c_str(), "%s: field %s at %u starts inside the one before it", kind.c_str(), e.second.first.c_str(), e.first);
        end = e.first + static_cast<uint32_t>(vt_size(e.second.second));
        MON_CHECK(end <= size, (kind + "/outside").c_str(), "%s: field %s ends behind the header", kind.c_str(), e.second.first.c_str());
        MON_CHECK(names.insert(e.second.first).second, (kind + "/twice").c_str(), "%s: field %s is there twice", kind.c_str(), e.second.first.c_str());
        c.count("mapped_fields");
    }
    for (auto& w : want) {
        auto it = got.find(w.off);
        MON_CHECK(it != got.end() && it->second.first == w.name && it->second.second == w.type, (kind + "/layout").c_str(), "%s: published field %s at byte %u is %s", kind.c_str(), w.name, w.off,
            it == got.end() ? "missing" : it->second.first != w.name ? it->second.first.c_str() : "of another type");
        c.count("published_fields");
        c.nontrivial(kind + w.name);
    }
}
static void c23(Ctx& c)
{
    c.cases("names", 1, [&](Rng&, uint64_t) {
#define K(x) check_class<CS::x>(c, #x);
        K(GeneralHeader) K(GeneralHeader2) K(GeneralHeader3) K(GeneralHeaderN) K(GeneralHeaderVes) K(GeneralHeaderSur) K(GeneralHeaderCli) K(GeneralHeaderJob) K(GeneralHeaderLin)
        K(GeneralHeaderVib) K(GeneralHeaderExp) K(GeneralHeaderAir) K(GeneralHeaderWat) K(GeneralHeaderEle) K(GeneralHeaderOth) K(GeneralHeaderAdd) K(GeneralHeaderSaux) K(GeneralHeaderCoord)
        K(GeneralHeaderPos1) K(GeneralHeaderPos2) K(GeneralHeaderPos3) K(GeneralHeaderRel) K(GeneralHeaderSen) K(GeneralHeaderSCa) K(GeneralHeaderTim) K(GeneralHeaderElSR) K(GeneralHeaderOri)
        K(GeneralHeaderMeas) K(ChannelSetHeader)
#undef K
        check_class<SY::BinaryHeader>(c, "BinaryHeader");
    });
    c.cases("segy-mapping", 1, [&](Rng&, uint64_t) {
        auto& m = SY::default_trace_header;
        MON_CHECK(m.size() == 2 && m[0].first == "SEG00000" && m[1].first == "SEG00001", "segy/headers", "default mapping does not have the headers SEG00000 and SEG00001");
        check_map(c, "segy/SEG00000", m[0].second, segy0, 232);
        check_map(c, "segy/SEG00001", m[1].second, segy1, 232);
        std::set<string> ns;
        std::vector<string> names, texts;
        for (auto& h : m)
            for (auto& e : h.second)
                ns.insert(e.second.first);
        for (auto& n : ns) {
            auto it = SY::trace_header_description.find(n);
            MON_CHECK(it != SY::trace_header_description.end(), "segy/no-description", "trace header %s of the default mapping has no description", n.c_str());
            names.push_back(n);
            texts.push_back(it->second);
        }
        check_assignment(c, "trace_header_description", names, texts);
        for (auto& d : SY::trace_header_description)
            MON_CHECK(!norm(d.second).empty(), "segy/empty-description", "trace header %s has an empty description", d.first.c_str());
    });
    c.cases("segy-text", 1, [&](Rng&, uint64_t) {
        string t = SY::default_text_header;
        MON_CHECK(t.size() == 3200, "segy/text-size", "default text header has %zu characters", t.size());
        for (int i = 0; i < 40; ++i) {
            MON_CHECK(t.substr(static_cast<size_t>(i) * 80, 3) == fmt("C%2d", i + 1), "segy/text-line", "line %d of the default text header starts with \"%s\"", i + 1,
                t.substr(static_cast<size_t>(i) * 80, 4).c_str());
            c.count("text_lines");
        }
        for (char ch : t)
            MON_CHECK(ch >= 32 && ch < 127, "segy/text-char", "default text header has a control character");
        MON_CHECK(t.find("END TEXTUAL HEADER", 39 * 80) != string::npos || t.find("END EBCDIC", 39 * 80) != string::npos, "segy/text-end", "last line of the default text header does not end it");
    });
    c.cases("sercel", 1, [&](Rng&, uint64_t) {
        struct { char const* n; ExtMaps const& m; std::vector<std::vector<Pub>> const& p; } const k[] = { { "sercel_428xl", CS::sercel_428xl, pub_sercel_428xl },
            { "sercel_428", CS::sercel_428, pub_sercel_428 }, { "sercel_408", CS::sercel_408, pub_sercel_408 } };
        for (auto& x : k) {
            MON_CHECK(x.m.size() == 7, (string(x.n) + "/blocks").c_str(), "%s has %zu blocks", x.n, x.m.size());
            std::set<string> ns;
            for (size_t i = 0; i < 7; ++i) {
                check_map(c, fmt("%s/%zu", x.n, i), x.m[i], x.p[i], 32);
                for (auto& e : x.m[i])
                    MON_CHECK(ns.insert(e.second.first).second, (string(x.n) + "/twice").c_str(), "%s: field %s is in two blocks", x.n, e.second.first.c_str());
            }
        }
    });
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "C23", c23 } }); }
