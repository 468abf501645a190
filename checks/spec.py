"""What the Unreal save format defines, stated independently of the code under analysis."""

MAGIC = 0x53415647  # "GVAS"
CONTAINER_MAGIC = b"PlZ"

# struct types with a binary form of their own; all others are lists of named members
STRUCT_KINDS = {
    "Vector": {"VectorF", "VectorD"},
    "Vector2D": {"Vector2F", "Vector2D"},
    "Rotator": {"RotatorF", "RotatorD"},
    "Quat": {"QuatF", "QuatD"},
    "DateTime": {"DateTime"},
    "Timespan": {"Timespan"},
    "LinearColor": {"LinearColor"},
    "IntPoint": {"IntPoint"},
    "Guid": {"Guid"},
    "GameplayTagContainer": {"GameplayTagContainer"},
}
CUSTOM = {"CustomStruct"}

# codes stored in files: type -> {meaning: code}
ENUMS = {
    "history": ("TextHistoryType", 1, {
        "None": -1, "Base": 0, "NamedFormat": 1, "OrderedFormat": 2, "ArgumentFormat": 3, "AsNumber": 4, "AsPercent": 5,
        "AsCurrency": 6, "AsDate": 7, "AsTime": 8, "AsDateTime": 9, "Transform": 10, "StringTableEntry": 11,
        "TextGenerator": 12, "RawText": 13}),
    "argument": ("FormatArgumentType", 1, {"Int": 0, "UInt": 1, "Float": 2, "Double": 3, "Text": 4, "Gender": 5}),
    "rounding": ("RoundingMode", 1, {
        "HalfToEven": 0, "HalfFromZero": 1, "HalfToZero": 2, "FromZero": 3, "ToZero": 4, "ToNegativeInfinity": 5,
        "ToPositiveInfinity": 6}),
    "datestyle": ("DateTimeStyle", 1, {"Default": 0, "Short": 1, "Medium": 2, "Long": 3, "Full": 4}),
    "transform": ("TransformType", 1, {"ToLower": 0, "ToUpper": 1}),
    "compression": ("PalworldCompressionType", 1, {"None": 0x30, "Zlib": 0x31, "ZlibTwice": 0x32}),
}

# custom versions: identifier as four little-endian words
UE5_RELEASE = (0xD89B5E42, 0x24BD4D46, 0x8412ACA8, 0xDF641779)
EDITOR_OBJECT = (0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41)
LARGE_WORLD_COORDINATES = 28
TEXT_ARGUMENT_64BIT = 12
INVARIANT_CULTURE_TEXT = 32


def guid_bytes(words):
    return b"".join(w.to_bytes(4, "little") for w in words)
