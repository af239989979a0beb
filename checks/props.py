import props_num
import props_rel
import props_text
import props_unit

PROPS = {}
for _m in (props_num, props_rel, props_unit, props_text):
    PROPS.update(_m.PROPS)
