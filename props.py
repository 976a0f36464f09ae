"""Which drivers and which alarm categories decide which property."""

HARMLESS = set()
ASSUMPTIONS = [
    "LP64 little-endian target as compiled by clang 18 (x86-64); IEEE-754 doubles",
    "the C library behaves as its models in engine/builtins.h and harness/models.c describe",
    "single-threaded use",
]

MEM = ["oob-read", "oob-write", "oob", "null", "uaf", "double-free", "bad-free", "uninit", "unterminated",
       "format", "div0", "shift", "overflow", "ctype", "imprecise", "abort", "exit", "stale"]
FAIL = [r"fail:.*", "unreachable"]
UNROLL = ["--unroll=300", "--paths", "--cap=5000"]
LAY = ["--paths", "--unroll=300", "--cap=3000"]
XML = ["--leak", "--oom"]
PARSE_ALL = [
    {"driver": "drv_parse", "entry": "drv_parse", "opts": ["--paths", "--cap=500"]},
    {"driver": "drv_parse", "entry": "drv_parse_null"},
    {"driver": "drv_parse", "entry": "drv_short"},
    {"driver": "drv_parse", "entry": "drv_short_valid"},
    {"driver": "drv_parse", "entry": "drv_ack"},
]
ACCEPT = [{"driver": "drv_parse", "entry": "drv_accepted%d" % i, "opts": UNROLL} for i in range(3)]
DATA = [{"driver": "drv_parse", "entry": "drv_data%d" % i, "opts": UNROLL} for i in range(2)]
VALID = [{"driver": "drv_parse", "entry": "drv_valid%d" % i, "opts": UNROLL} for i in range(6)]
DECODE = [{"driver": "drv_decode", "entry": "drv_data", "opts": ["--leak", "--oom"]}]
REC = [{"driver": "drv_xml", "entry": "drv_" + e, "opts": XML} for e in
       ("record0", "record1", "record2", "header", "fixed", "error", "other", "norm_fixed", "norm_other", "encode")]
OV = ["--override=mbus_data_variable_record_xml", "--override=mbus_data_variable_header_xml"]
LISTS = [{"driver": "drv_xml", "entry": "drv_variable", "opts": XML + OV},
         {"driver": "drv_xml", "entry": "drv_norm_variable", "opts": XML + OV + ["--override=mbus_parse_variable_record", "--override=mbus_record_free"]}]
NORM = [{"driver": "drv_xml", "entry": "drv_norm_record0", "opts": XML + ["--unroll=400", "--paths", "--cap=200"]},
        {"driver": "drv_xml", "entry": "drv_norm_record1", "opts": XML + ["--unroll=400"]},
        {"driver": "drv_xml", "entry": "drv_norm_record2", "opts": XML + ["--unroll=400"]}]
LAYOUT = [{"driver": "drv_layout", "entry": "drv_" + e, "opts": LAY} for e in ("codes", "special", "chain", "shapes", "custom", "lvar", "lvar_bcd", "lvar_kept")]

PACK = [{"driver": "drv_pack", "entry": "drv_" + e, "opts": LAY} for e in
        ("refused", "other", "ack", "short", "control", "long0", "long1", "long2", "back0", "back1", "back_short", "pack_none",
         "round_error", "round_fixed", "round_plain", "round_custom", "round_lvar", "round_manufacturer")] + [
        {"driver": "drv_pack", "entry": "drv_pack_" + e, "opts": ["--paths", "--cap=1000", "--unroll=1"]} for e in ("any", "after")]
KIND = [{"driver": "drv_pack", "entry": "drv_" + e, "opts": LAY} for e in ("kind", "direction", "error", "fixed", "header", "not_fill")]

VALUES = [{"driver": "drv_values", "entry": "drv_" + e, "opts": LAY} for e in
          ("int", "long", "nothing", "bcd", "bcd_hex", "int_encode", "bcd_encode", "float", "tm2", "tm4", "tm6", "text", "manufacturer",
           "number", "number_bcd", "number_hex", "number_float", "date2", "date4", "date4x", "date6", "date6x",
           "value_text0", "value_text1", "value_text2", "value_none")]

UNITS = [{"driver": "drv_units", "entry": "drv_" + e, "opts": ["--paths", "--unroll=800", "--cap=3000"]} for e in
         ("primary", "correction0", "correction1", "correction2", "correction3", "correction4", "no_correction", "fd", "fb", "missing", "custom", "fixed")]

PURGE = ["--override=mbus_purge_frames"]
def bus(drv, names, opts, memory=()):
    """jobs of a protocol driver, with the purge contract the overrides rely on"""
    return [{"driver": drv, "entry": "drv_" + e, "opts": opts + PURGE} for e in names] + \
           [{"driver": drv, "entry": "drv_" + e, "opts": opts + PURGE + ["--oom"]} for e in memory]


EMPTYING = [{"driver": "drv_echo", "entry": "drv_purge", "opts": ["--cap=3000"]}]
READOUT = bus("drv_readout", ["retry%d" % i for i in range(10)] + ["refused"], ["--cap=3000", "--leak"], ["memory"]) + EMPTYING
BUS = bus("drv_bus", ["select", "probe0", "probe1", "probe2", "bad_mask", "read_secondary", "read_primary", "read_refused"], ["--cap=3000"]) + EMPTYING
SCAN_O = ["--cap=3000", "--leak", "--override=mbus_probe_secondary_address", "--override-rec=mbus_scan_2nd_address_range"]
SCAN = [{"driver": "drv_scan", "entry": "drv_scan" + e, "opts": SCAN_O} for e in ("0", "1", "_last", "_refused")] + \
       [{"driver": "drv_scan", "entry": "drv_scan_memory", "opts": SCAN_O + ["--oom"]}]
SEND = bus("drv_send", ["request", "request_bad", "ping", "ping_bad", "baudrate", "baudrate_bad", "reset", "reset_bad", "user_data0",
                        "user_data1", "user_data2", "user_data_bad", "set_address", "set_address_bad", "select_digits", "select_each", "select_bad"],
           ["--cap=3000", "--leak", "--paths", "--unroll=300", "--override=strtol", "--override=strtoul"], ["memory", "memory_select"]) + EMPTYING
ECHO = [{"driver": "drv_echo", "entry": "drv_echo", "opts": ["--cap=3000", "--paths"]},
        {"driver": "drv_echo", "entry": "drv_none", "opts": ["--cap=3000"]}] + EMPTYING

TP = ["--cap=3000", "--paths", "--override=mbus_frame_pack", "--override=mbus_parse"]
def line(names, drivers=("drv_serial", "drv_tcp")):
    return [{"driver": d, "entry": "drv_" + e, "opts": TP} for d in drivers for e in names]
LINKS = line(["lifecycle", "connect_refused"])
WRITE = line(["write", "write_refused"])
READ = line(["read", "read_refused"])
CONTEXT = [{"driver": "drv_context", "entry": "drv_" + e, "opts": ["--cap=3000", "--leak", "--oom", "--paths"]} for e in
           ("serial", "tcp", "free_none", "option", "option_bad", "dispatch", "events", "error", "slaves")] + \
          line(["baudrate", "baudrate_bad"], ["drv_serial"]) + line(["timeout", "timeout_bad"], ["drv_tcp"])

META = [{"driver": "drv_meta", "entry": "drv_" + e, "opts": LAY} for e in ("numbers", "function", "fixed", "medium", "error", "manufacturer", "manufacturer_bad", "none", "product")]
HEX = [{"driver": "drv_hex", "entry": "drv_" + e, "opts": ["--cap=20000", "--paths", "--unroll=300", "--override=strtoul"]} for e in ("pairs", "stop", "room", "none")] + \
      [{"driver": "drv_hex", "entry": "drv_any", "opts": ["--cap=3000", "--leak", "--override=strtoul"]}]
OV3 = OV + ["--override=mbus_frame_data_parse"]
CHAINS = [{"driver": "drv_own", "entry": "drv_frame_xml" + e, "opts": ["--leak", "--oom"] + LAY + OV3} for e in ("1", "2", "3", "_other")]
OWN = [{"driver": "drv_own", "entry": "drv_" + e, "opts": ["--leak", "--oom"] + LAY} for e in ("frame_free", "frame_new", "records", "data", "record_free", "fixed_record")]
FRAMES = [{"driver": "drv_xml", "entry": "drv_frames", "opts": XML + OV3 + ["--override=mbus_data_record_free"]}]
ADDR = [{"driver": "drv_addr", "entry": "drv_" + e, "opts": LAY} for e in ("primary", "secondary", "character", "length", "any_text")] + \
       [{"driver": "drv_addr", "entry": "drv_" + e, "opts": LAY + ["--leak", "--oom"]} for e in ("get", "get_bad")] + \
       [{"driver": "drv_addr", "entry": "drv_get_any", "opts": LAY + ["--leak", "--oom", "--override=mbus_frame_data_parse"]}]
PRINT = [{"driver": "drv_print", "entry": "drv_" + e, "opts": XML} for e in ("data", "frame", "dump", "debug")]
SWITCH = [{"driver": "drv_print", "entry": "drv_switch", "opts": ["--leak", "--paths", "--cap=200", "--override=printf", "--override=puts", "--override=putchar"]}]
SILENT = [{"driver": "drv_scan", "entry": "drv_scan_silent", "opts": SCAN_O + ["--oom"]}]
def tool(name, *entries):
    fs = ["mbus_context_serial", "mbus_context_tcp", "mbus_connect", "mbus_serial_set_baudrate", "mbus_disconnect", "mbus_context_free", "mbus_send_ping_frame", "mbus_purge_frames",
          "mbus_select_secondary_address", "mbus_send_select_frame", "mbus_send_request_frame", "mbus_send_switch_baudrate_frame", "mbus_send_application_reset_frame",
          "mbus_set_primary_address", "mbus_send_frame", "mbus_recv_frame", "mbus_sendrecv_request", "mbus_scan_2nd_address_range", "mbus_frame_data_parse", "mbus_frame_data_xml",
          "mbus_frame_xml", "mbus_frame_get_secondary_address", "mbus_frame_print", "mbus_hex2bin", "mbus_parse", "printf", "puts", "fprintf", "fputs", "putchar", "fwrite", "fread", "fopen", "fclose"]
    return [{"driver": "drv_tool", "tool": "mbus-" + name, "entry": "drv_" + e, "name": name + "/" + e, "opts": ["--override=" + f for f in fs]} for e in entries]
TOOLS = tool("serial-scan", "scan_serial", "scan_serial_retries", "scan_forms_serial", "count1") + tool("tcp-scan", "scan_tcp", "scan_tcp_retries", "scan_forms_tcp", "count2") + \
    tool("serial-request-data", "request_serial", "count2") + tool("tcp-request-data", "request_tcp", "count3") + \
    tool("serial-request-data-multi-reply", "multi_serial", "count2") + tool("tcp-request-data-multi-reply", "multi_tcp", "count3") + \
    tool("serial-select-secondary", "select_serial", "count2") + tool("tcp-select-secondary", "select_tcp", "count3") + \
    tool("serial-scan-secondary", "search_serial", "count1") + tool("tcp-scan-secondary", "search_tcp", "count2") + \
    tool("serial-set-address", "set_address", "count3") + tool("serial-switch-baudrate", "switch", "count3") + \
    tool("tcp-application-reset", "reset", "count3") + tool("tcp-raw-send", "raw", "count3")
KEPT = ["ro-write", "unreachable"]
def ov(*names):
    return ["--override=" + n for n in names]
NUMBERS = ["mbus_data_record_function", "mbus_data_record_storage_number", "mbus_data_record_tariff", "mbus_data_record_device"]
SHOWN = [{"driver": "drv_shown", "entry": "drv_" + e, "opts": LAY + ov(*o)} for e, o in (
    ("record", NUMBERS + ["mbus_data_record_unit", "mbus_data_record_value", "mbus_str_xml_encode", "gmtime", "strftime"]),
    ("record_none", []),
    ("header", ["mbus_decode_manufacturer", "mbus_data_product_name", "mbus_data_variable_medium_lookup", "mbus_str_xml_encode"]),
    ("list", ["mbus_data_variable_record_xml", "mbus_data_variable_header_xml"]),
    ("normalized", ["mbus_data_variable_record_xml", "mbus_data_variable_header_xml", "mbus_parse_variable_record", "mbus_record_free", "mbus_str_xml_encode"]),
    ("fixed", ["mbus_data_fixed_medium", "mbus_data_fixed_function", "mbus_data_fixed_unit", "mbus_str_xml_encode"]),
    ("error", ["mbus_data_error_lookup", "mbus_str_xml_encode"]),
    ("join", NUMBERS + ["mbus_variable_value_decode", "mbus_vib_unit_normalize"]),
    ("join_fixed", ["mbus_fixed_normalize"]))]

def history(jobs):
    """the same jobs with every static buffer and variable of the library as an unknown earlier call left it; an alarm
    counts when it does not occur with fresh statics"""
    seen, out = set(), []
    for j in jobs:
        k = (j["driver"], j["entry"], tuple(j.get("opts", ())))
        if k not in seen:
            seen.add(k)
            out.append(dict(j, opts=list(j.get("opts", ())) + ["--history"]))
    return out

PROPS = {
    "P01": {"jobs": PARSE_ALL + ACCEPT, "cats": MEM + ["ro-write", "fail:.*input.*"],
            "rule": "every memory access, shift, division, signed operation and library call reachable from frame parsing stays within the object it works on, for a buffer of any content and any length", "min_funcs": 4, "min_obligations": 60},
    "P02": {"jobs": DECODE + [{"driver": "drv_layout", "entry": "drv_lvar_kept", "opts": LAY}], "cats": MEM + FAIL,
            "rule": "every access during interpretation of user data stays within its object and below the end of the bytes received; every record satisfies the size invariants", "min_funcs": 6, "min_obligations": 80},
    "P03": {"jobs": REC + LISTS + FRAMES + NORM, "cats": MEM + ["trunc", r"fail:.*longer.*"],
            "rule": "every formatted write of XML rendering fits the room left in its buffer", "min_funcs": 30, "min_obligations": 900},
    "P04": {"jobs": REC + LISTS + FRAMES, "cats": [r"fail:.*(XML|encode|markup).*", "trunc", "unterminated", "unreachable"],
            "rule": "the text produced has balanced tags, escaped character data and no control bytes, by the effect of every write on the tag nesting", "min_funcs": 30, "min_obligations": 700},
    "P05": {"jobs": ACCEPT + VALID + PARSE_ALL[2:], "cats": FAIL,
            "rule": "parsing returns 0 exactly for the byte strings that are frames, and stores every field as received", "min_funcs": 4, "min_obligations": 60},
    "P07": {"jobs": DATA + PARSE_ALL[:2] + VALID, "cats": FAIL,
            "rule": "a positive result of parsing never exceeds the bytes the frame still lacks", "min_funcs": 4, "min_obligations": 60},
    "P25": {"jobs": LAYOUT, "cats": FAIL + ["stale"],
            "rule": "each record takes up exactly the bytes its information fields announce, and keeps each of them", "min_funcs": 5, "min_obligations": 60},
    "P06": {"jobs": PACK, "cats": MEM + FAIL,
            "rule": "packing writes the bytes the frame format asks for, nothing outside the buffer, and refuses what does not fit; packing parsed data gives the bytes parsed", "min_funcs": 8, "min_obligations": 120},
    "P26": {"jobs": KIND, "cats": MEM + FAIL,
            "rule": "user data are interpreted by direction, control information and length, and their header fields are the bytes received", "min_funcs": 3, "min_obligations": 60},
    "P13": {"jobs": VALUES, "cats": MEM + FAIL + ["trunc"],
            "rule": "every decoder yields the value its bytes encode, and every record value text is the rendering of that value", "min_funcs": 15, "min_obligations": 150},
    "P12": {"jobs": UNITS, "cats": MEM + FAIL + ["trunc"],
            "rule": "for every code of the standard's tables, unit, quantity, power of ten and unit text are those of the table", "min_funcs": 10, "min_obligations": 200},
    "P09": {"jobs": READOUT, "cats": MEM + FAIL + ["leak"],
            "rule": "every request, repetition and count bit of a readout, and its result, are those the answers received so far call for", "min_funcs": 6, "min_obligations": 100},
    "P10": {"jobs": BUS, "cats": MEM + FAIL,
            "rule": "the result of selecting, probing and reading a slave is the one its answers stand for, and nothing else", "min_funcs": 6, "min_obligations": 60},
    "P11": {"jobs": SCAN, "cats": [c for c in MEM if c != "exit"] + FAIL + ["leak"],
            "rule": "every mask tried, its order, and the handling of each outcome are those of the wildcard search tree (by induction on the position)", "min_funcs": 2, "min_obligations": 40},
    "P20": {"jobs": SEND, "cats": MEM + FAIL + ["leak", "ro-write"],
            "rule": "the frame handed to the transport has exactly the fields of the command, and is sent once or not at all", "min_funcs": 12, "min_obligations": 150},
    "P28": {"jobs": ECHO, "cats": MEM + FAIL,
            "rule": "the first frame received after sending is skipped exactly when it is the echo of an own frame; emptying the bus reads until nothing comes", "min_funcs": 3, "min_obligations": 20},
    "P16": {"jobs": LINKS, "cats": MEM + FAIL,
            "rule": "along every history of connecting and disconnecting, each descriptor and address list obtained is given back exactly once", "min_funcs": 6, "min_obligations": 30},
    "P17": {"jobs": WRITE, "cats": MEM + FAIL,
            "rule": "the bytes handed to the operating system are those packed, once, and the result tells whether all were taken", "min_funcs": 3, "min_obligations": 15},
    "P18": {"jobs": READ, "cats": MEM + FAIL + ["ro-write"],
            "rule": "each read asks for exactly the bytes the frame lacks and appends them; the result is the one the reads and the parser call for", "min_funcs": 3, "min_obligations": 15},
    "P19": {"jobs": CONTEXT, "cats": MEM + FAIL + ["leak"],
            "rule": "a handle holds exactly the defaults and the settings accepted since; settings out of range change nothing; line speed and timeouts reach the operating system", "min_funcs": 20, "min_obligations": 60},
    "P21": {"jobs": HEX, "cats": MEM + FAIL + ["leak", "ro-write"],
            "rule": "hexadecimal text of any length is read within its bounds, and its pairs of digits become the bytes stored, within the room given", "min_funcs": 2, "min_obligations": 20},
    "P22": {"jobs": META, "cats": MEM + FAIL + ["trunc"],
            "rule": "the fields spread over the information bytes of a record are put together bit by bit, and every code of the name tables has its name", "min_funcs": 10, "min_obligations": 40},
    "P23": {"jobs": ADDR, "cats": MEM + FAIL + ["trunc"],
            "rule": "addresses are accepted exactly when they have the form of one, character by character, and the address of a device is the text of its header bytes", "min_funcs": 5, "min_obligations": 50},
    "P08": {"jobs": OWN + CHAINS + FRAMES + DECODE + REC + LISTS + NORM + ADDR[5:], "cats": ["leak", "uaf", "double-free", "bad-free", "unreachable", "imprecise", r"fail:.*(left over|not empty|missing or shown twice|has texts|has numbers|order appended|than appended|could not be read|read in order|reports wrongly|marks|length than its kind).*"],
            "rule": "every allocation has one owner on every path and is freed exactly once when its owner is, never used after", "min_funcs": 40, "min_obligations": 1000},
    "P14": {"jobs": DECODE + REC + LISTS + FRAMES + NORM + ADDR[5:] + PRINT[:1] + PRINT[2:3] + HEX[-1:] + PARSE_ALL[:1], "cats": KEPT,
            "rule": "no write on any path goes to the telegram, data, records or text that is only to be read", "min_funcs": 40, "min_obligations": 1000},
    "P29": {"jobs": PRINT + SWITCH, "cats": MEM + FAIL + ["leak", "trunc"],
            "rule": "every access of printing, dumping and debug output stays within what is printed, and every format gets the arguments it asks for", "min_funcs": 15, "min_obligations": 200},
    "P15": {"jobs": PARSE_ALL + ACCEPT[:1] + DECODE + REC + LISTS + FRAMES + NORM + HEX[-1:] + ADDR + SILENT + OWN + CHAINS + READOUT + BUS + SEND + ECHO + LINKS + WRITE + READ + CONTEXT, "cats": ["exit", "abort", "stdout", "unreachable"],
            "rule": "no path of the library outside printing and debug output ends the process or writes to standard output", "min_funcs": 100, "min_obligations": 2000},
    "P24": {"jobs": TOOLS, "cats": [c for c in MEM if c != "exit"] + FAIL,
            "rule": "on every path through a tool, what reaches the connection is what the command line says, each step follows the success of the ones before, and the exit status and output tell what happened", "min_funcs": 14, "min_obligations": 300},
    "P32": {"jobs": history(VALUES + UNITS + META + SHOWN + CHAINS + ADDR + KIND + PACK + LAYOUT + PARSE_ALL + DATA + VALID + HEX + SEND + BUS + SCAN + ECHO + READOUT + WRITE + READ + CONTEXT),
            "cats": MEM + ["ro-write", r"fail:.*"],
            "rule": "with whatever earlier calls may have left in every static buffer and variable of the library, each result is still exactly that of the arguments, and no table of the library is written", "min_funcs": 100, "min_obligations": 4000},
    "P27": {"jobs": SHOWN + CHAINS[:3], "cats": FAIL + ["trunc", "imprecise"],
            "rule": "every XML text is, character by character, that of the telegram's fields: each record once, in order, numbered, with its own function, numbers, unit and value; so are the fields of normalized records", "min_funcs": 10, "min_obligations": 100},
}
