#pragma once
int &rt_inlib(); int rt_home(); u64 rt_switches(); u64 rt_regions(); bool al_in_arena(const void *p);
void rt_main_stack(void *p);
