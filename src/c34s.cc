#define SYNCED 1
#include "loss.hh"
const Prop the_prop = {"C34", "at least three commits tried, and two losses at moments with unsynced bytes or several files", {{"synced", loss_stage, 14000, 350000, 8}}};
