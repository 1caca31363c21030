"""One-off: froze the code-to-name tables of the pinned commit into tables.json (the reference model's own copy).
Never run by a check: the checks compare the current tree against the frozen file."""
import json, sys
sys.path.insert(0, "/repo")
from procmon_parser import consts as c

def en(e):
    return {str(int(v)): n for n, v in e.__members__.items() if v.name == n}
out = {
    "columns": {str(int(k)): v for k, v in c.ColumnToOriginalName.items()},
    "column_names": en(c.Column), "rule_relation": en(c.RuleRelation), "rule_action": en(c.RuleAction),
    "event_class": en(c.EventClass),
    "ops": {"1": en(c.ProcessOperation), "2": en(c.RegistryOperation), "3": en(c.FilesystemOperation),
            "4": en(c.ProfilingOperation), "5": en(c.NetworkOperation)},
    "fs_sub_ops": {str(int(k)): en(v) for k, v in c.FilesystemSubOperations.items()},
    "results": {str(k): v for k, v in c._ErrorCodeMessages.items()},
    "ioctls": {str(k): v for k, v in c._IoctlConsts.items()},
    "file_information_class": en(c.FileInformationClass),
    "reg_types": en(c.RegistryTypes), "reg_key_info": en(c.RegistryKeyInformationClass),
    "reg_value_info": en(c.RegistryKeyValueInformationClass),
    "reg_key_set_info": {str(k): v for k, v in c.RegistryKeySetInformationClass.items()},
    "reg_disposition": en(c.RegistryDisposition),
    "fs_disposition": en(c.FilesystemDisposition), "fs_open_result": en(c.FilesystemOpenResult),
    "fs_priority": {str(k): v for k, v in c.FilesystemPriority.items()},
    "sync_type": {str(k): v for k, v in c.FileSystemCreateFileMappingSyncType.items()},
    "page_protection": en(c.PageProtection),
    "masks": {
        "registry_access": list(c.REGISTRY_ACCESS_MASK_STRINGS.items()),
        "fs_access": list(c.FILESYSTEM_ACCESS_MASK_STRINGS.items()),
        "create_options": list(c.FILESYSTEM_CREATE_OPTIONS.items()),
        "create_attributes": list(c.FilesystemCreateAttributes.items()),
        "share_mode": list(c.FilesystemCreateShareMode.items()),
        "io_flags": list(c.FilesystemIoFlags.items()),
        "notify": list(c.FilesystemNotifyChangeFlags.items()),
    },
    "generic": {"registry": c.REGISTRY_ACCESS_MASK_MAPPING, "fs": c.FILESYSTEM_ACCESS_MASK_MAPPING},
}
json.dump(out, open("/verif/mc/tables.json", "w"), indent=1)
