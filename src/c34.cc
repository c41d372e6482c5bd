#define SYNCED 0
#include "loss.hh"
const Prop the_prop = {"C34", "at least three commits tried, and two losses at moments with unsynced bytes or several files", {{"loss", loss_stage, 16000, 400000, 8}}};
