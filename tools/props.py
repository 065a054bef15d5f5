"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json
import os

D = "src/DLMS_SPODES/"
CDT = D + "types/common_data_types.py"
UT = D + "types/useful_types.py"
CST = D + "types/cosem_service_types.py"
PDU = D + "types/cosem_pdu.py"
BB = D + "types/byte_buffer.py"
FR = D + "hdlc/frame.py"
NEG = D + "hdlc/negotiation.py"
LLC = D + "hdlc/sub_layer.py"
VER = D + "version.py"
IMPL = D + "types/implementations/"

P = []


def prop(id, title, statement, files, mech, qtext, why, over=("inputs",)):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
