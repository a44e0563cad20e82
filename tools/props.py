"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
WIREFILES = ["pyzwave/types.py", "pyzwave/message.py", "pyzwave/commandclass/__init__.py", "pyzwave/commandclass/Zip.py", "pyzwave/commandclass/NodeProvisioning.py"]


def prop(pid, title, statement, over, text, why, files, mech, observe, note, technique, state=(), thorough=True, hook=False):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split() if isinstance(files, str) else files, mech=mech,
                      observe=observe, note=note, technique=technique, state=state, thorough=thorough, hook=hook))


def na(pid, title, statement, over, text, why, files, mech, observe, reason):
    prop(pid, title, statement, over, text, why, files, mech, observe, "", "")
    NA.append((pid, reason))


AI = "path-sensitive abstract interpretation of the coroutines, closed with an environment that may do anything at each suspension point; "
ZC = "pyzwave/zipconnection.py pyzwave/adapter.py"
WT = "abstract interpretation of the codec with a bit-provenance domain, against a declarative layout table"

prop("W01", "Received commands are decoded from exactly the bits their layout assigns",
     "For every supported Z-Wave command, decoding a payload of its layout yields that command's message, with each field equal to exactly the bits the command's layout assigns to it "
     "(width, order, sign, scale, text encoding) and nested messages and repeated groups decoded by the same rules. A field is never read from its neighbour's bits and a decoded message never mixes in values of another message. The unit of a meter report combines its two parts.",
     "inputs", "every payload of each of the supported commands (all bit values of all fields; list and string lengths over the enumerated shapes, every flag combination)",
     "the existing tests decode one or two concrete packets per command, and most commands have none; the property is about all bit patterns",
     WIREFILES, [("field tables of the command classes and the field decoders", "pyzwave/types.py, pyzwave/commandclass/*.py"), ("generic message decoder", "pyzwave/message.py")],
     ["value of a decoded message's fields"],
     "All abstract paths of the decoder, each payload bit a distinct symbol; list/text lengths enumerated up to a small bound (the per-element code is shared). Layout table is a reviewed spec, derived from the command definitions.", WT)
prop("W02", "Sent commands carry every field in exactly the bits of their layout",
     "For every supported Z-Wave command and all field values that fit, the encoded packet is the command's two identifier bytes followed by each field in exactly the bits of its layout, reserved bits zero and length fields equal to the lengths written. "
     "This holds whichever way the fields were assigned (constructor or attribute).",
     "inputs", "every supported command, every combination of in-range field values",
     "the existing tests compose a dozen concrete messages; the property is about all values of all commands",
     WIREFILES, [("field encoders", "pyzwave/types.py"), ("generic message encoder", "pyzwave/message.py")], ["bytes produced when a message is composed"],
     "All abstract paths of the encoder with each field's bits symbolic; list/text lengths enumerated up to a small bound.", WT)
prop("W03", "Lengths and counts inside a packet never reach outside it",
     "Whatever length, count or size bytes a received packet contains, decoding ends, never reads a byte beyond the packet and never moves backwards: it either yields a message built only from bytes the packet has, or raises an error. "
     "A nested part with its own length never consumes bytes behind that length.",
     "inputs", "all packets, including truncated and hostile ones, for every supported command with inner lengths or counts",
     "tests use well formed packets; a bogus length is an input class of its own per field and per command",
     WIREFILES, [("bit stream reader", "pyzwave/types.py"), ("length prefixed fields", "pyzwave/commandclass/*.py")], ["decoded message or raised error"],
     "All abstract paths with every count/length byte case-split over its boundary values; reader primitives analysed for arbitrary position and size.", WT)
prop("W04", "Shorter payloads keep their meaning, and decode then encode is the identity",
     "A payload that ends early at a byte boundary (an older version of the command) decodes to the same values for every field it contains completely, and the fields it does not contain are not invented; what is derived from the fields (such as the scale of a meter report) can be asked for as well. "
     "Encoding a message that was decoded from a payload of its layout gives that payload back, except that reserved bits become zero.",
     "inputs", "every prefix of every layout payload; every layout payload",
     "tests never truncate a packet and round trip only a handful of values", WIREFILES,
     [("generic message decoder and encoder", "pyzwave/message.py"), ("field decoders and encoders", "pyzwave/types.py")], ["fields of the decoded message", "bytes of the re-encoded message"],
     "All abstract paths, bits symbolic; prefix lengths enumerated.", WT)
prop("W05", "A value that does not fit its field is refused, never truncated into a neighbour",
     "Composing a message with a numeric field value outside what the field's width can hold, or with text or lists longer than their length field can express, raises an error; no packet is produced in which another field, or the length, carries part of it.",
     "inputs", "every numeric field of every supported command, all values beyond its width (including negative ones)",
     "tests only use small valid values", WIREFILES, [("bit field writer", "pyzwave/types.py")], ["raised error or bytes when composing"],
     "All abstract paths; boundary values beyond each width for every field, writer primitive for arbitrary out-of-range value.", WT)
prop("W06", "Messages with missing fields are never sent",
     "Composing a message in which a required field was never set raises an error instead of sending a made-up value; only optional trailing or list/option fields may be absent and then encode as nothing.",
     "inputs", "every supported command with each field left out",
     "tests compose complete messages", WIREFILES, [("generic message encoder", "pyzwave/message.py")], ["raised error or bytes when composing"],
     "Every field of every command left out, by constructor and by attribute; all abstract paths.", WT)
prop("W07", "Command identifiers and message types correspond one to one",
     "Every supported command identifier decodes to its own message type and each message type is sent under its own identifier; an identifier that is not supported, and a packet too short to hold one, decodes to an unknown message that reports exactly the identifier received (zero when there is none).",
     "inputs", "all identifiers: all supported ones, and a dense sample of the unsupported ones",
     "tests look at single identifiers; a collision or missing registration only shows for the command concerned",
     "pyzwave/message.py pyzwave/commandclass/__init__.py", [("command registry", "pyzwave/commandclass/__init__.py, pyzwave/message.py")], ["type and identifier of decoded and composed messages"],
     "Registry evaluated statically, every supported identifier; unsupported ones dense in every class (thorough: all 256 per class).", WT)
prop("W08", "Published codes keep their numbers and names",
     "Every published code table (sensor types, meter types and scales, node add/remove status, inclusion modes and keys, transport option types, mailbox operations, ...) maps each name to the number fixed by the Z-Wave specification, and the number decodes back to that name.",
     "inputs", "every member of every published code table",
     "a test uses two or three members; a swapped code is silently accepted everywhere else",
     "pyzwave/commandclass/SensorMultilevel.py pyzwave/commandclass/Meter.py pyzwave/commandclass/NetworkManagementInclusion.py pyzwave/commandclass/NetworkManagementProxy.py pyzwave/commandclass/Zip.py pyzwave/commandclass/Mailbox.py pyzwave/adapter.py",
     [("enumerations", "pyzwave/commandclass/*.py")], ["value and name of the enumeration members"],
     "Exhaustive over the reviewed table of codes.", "static evaluation of the enumerations against a reviewed code table", thorough=False)
prop("W09", "Transport options are read by their own length and never cost the packet",
     "Options in a transport header extension decode each within its own length, in any order and number; an option or maintenance element that is not supported is skipped and everything else in the packet, including the embedded command, is decoded as if it were absent. "
     "The expected delay of a queued packet is the one announced by its option, zero when there is none.",
     "inputs", "every combination and order of up to three supported and unsupported options, with arbitrary contents",
     "tests decode two recorded header extensions", "pyzwave/commandclass/Zip.py pyzwave/types.py",
     [("header extension decoder", "pyzwave/commandclass/Zip.py")], ["decoded header extension and embedded command"],
     "All abstract paths per combination (quick: a third of the triples), contents symbolic.", WT)

PARTS = []


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("props_") and f.endswith(".py"):
            exec(compile(open(os.path.join(here, f), encoding="utf-8").read(), f, "exec"), globals())
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fd:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
            fd.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    nas = {x for x, _ in NA}
    checks = []
    for p in PROPS:
        if p["pid"] in nas:
            continue
        c = {"property": p["pid"], "quick_cmd": "python3 run.py %s" % p["pid"], "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["technique"], "level": "other", "level_note": p["note"]}
        if p["thorough"]:
            c["thorough_cmd"] = "python3 run.py %s --tier thorough" % p["pid"]
        checks.append(c)
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 9))'", "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "All checks parse /repo's current sources on every run; nothing in /repo is executed. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fd:
        json.dump(m, fd, indent=1)
        fd.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
