import * as cliprops from "./props/cliprops.mjs";
import * as libprops from "./props/libprops.mjs";
import * as docprops from "./props/docprops.mjs";
import * as apiprops from "./props/apiprops.mjs";
export const PROPS = Object.fromEntries(Object.values({ ...cliprops, ...libprops, ...apiprops, ...docprops }).filter((p) => p && p.id).map((p) => [p.id, p]));
