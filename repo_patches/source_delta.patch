From a66ce200d23952ef217aaf5d8033f8da85123328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 001/142] fix: 6502 indirect zero page pointers wrap around
 within the zero page

---
 src/sims/mos6502.src/mos6502.cc  | 17 +++++++++++++----
 src/sims/mos6502.src/mos6502cl.h |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..af66036 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -491,6 +491,16 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256+l;
 }
 
+// Both bytes of an indirect pointer are in the zero page
+u16_t
+cl_mos6502::read_zaddr(u8_t a)
+{
+  u8_t h, l;
+  l= rom->read(a);
+  h= rom->read((a+1)&0xff);
+  return h*256+l;
+}
+
 class cl_cell8 &
 cl_mos6502::imm8(void)
 {
@@ -580,8 +590,7 @@ cl_mos6502::ind(void)
 class cl_cell8 &
 cl_mos6502::zind(void)
 {
-  u16_t a= fetch();
-  a= read_addr(rom, a);
+  u16_t a= read_zaddr(fetch());
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -592,7 +601,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_zaddr(a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -602,7 +611,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_zaddr(fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..9f9cb8c 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual u16_t read_zaddr(u8_t a);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
-- 
2.43.0


From 250f1730219fca6e055353b3d8907f93147e296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 002/142] fix: 6502 RTS keeps the program counter within 16
 bits

---
 src/sims/mos6502.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 51acdc2..bba18fe 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -68,7 +68,7 @@ int
 cl_mos6502::RTS(t_mem code)
 {
   t_addr spbef= rSP;
-  PC= pop_addr()+1;
+  PC= (pop_addr()+1)&0xffff;
   class cl_stack_ret *op= new cl_stack_ret(instPC, PC, spbef, rSP);
   op->init();
   stack_read(op);
-- 
2.43.0


From f69278c162c0072f7a515344ced3b376fb891afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 003/142] fix: 8080 ADC, SBB, SUB, CMP and DAA compute carry
 and auxiliary carry correctly

---
 src/sims/i8085.src/i8080cl.h |  2 +-
 src/sims/i8085.src/ialu.cc   | 51 ++++++++++++------------------------
 2 files changed, 18 insertions(+), 35 deletions(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b4b3abd..5032377 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -203,7 +203,7 @@ public:
   virtual int SPHL(t_mem code);
   
   // Arithmetic
-  virtual int add8(u8_t op, bool add_c, bool is_daa= false);
+  virtual int add8(u8_t op, bool add_c);
   virtual int sub8(u8_t op, bool sub_c, bool cmp);
   virtual int ana(u8_t op);
   virtual int ora(u8_t op);
diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..ca52f78 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -28,21 +28,17 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #include "i8080cl.h"
 
 int
-cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
+cl_i8080::add8(u8_t op, bool add_c)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
-  rF&= ~fAll_A;
-  if (!is_daa) rF&= ~flagA;
+  u8_t c= (add_c && (rF & flagC))?1:0;
+  res= rA+op+c;
+  rF&= ~fAll;
   if (res>0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
-      rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
@@ -54,17 +50,15 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
-  u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t c= (sub_c && (rF & flagC))?0:1;
+  op= ~op;
+  u16_t res= rA+op+c;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (res<=0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+c > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
@@ -245,27 +239,16 @@ int
 cl_i8080::DAA(t_mem code)
 {
   u8_t corr= 0;
-  if (((rA & 0xf) > 9) || (rF & flagA))
+  u8_t l= rA & 0xf, h= rA>>4, c= rF & flagC;
+  if ((l > 9) || (rF & flagA))
     corr= 6;
-  u8_t v= rA>>4, c= 10;
-  if (corr==6)
-    c= 9;
-  if ((v >= c) || (rF & flagC))
-    corr|= 0x60;
-  if (corr)
+  if ((h > 9) || ((h == 9) && (l > 9)) || c)
     {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
+      corr|= 0x60;
+      c= flagC;
     }
+  add8(corr, false);
+  cF.W(rF | c);
   return resGO;
 }
 
-- 
2.43.0


From ac1bbf2dc07968b18874de54ab1ec60ef019adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 004/142] fix: 8080 RST 2, 3, 6 and 7 go to their own vector

---
 src/sims/i8085.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
-- 
2.43.0


From 71492d72af6e3942aa3ce6fd77f8c48d8dcb3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 005/142] fix: 8085 LDHI, LDSI, JX5, JNX5 and borrow of DSUB

---
 src/sims/i8085.src/i8085.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..eb25842 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -262,7 +262,7 @@ cl_i8085::DSUB(t_mem code)
   b= ~b+1;
   r= a+b;
   rF&= ~fAll;
-  if (r <= 0xffff) rF|= flagC;
+  if (rHL < rBC) rF|= flagC;
   if (r & 0x8000) rF|= flagS;
   r&= 0xffff;
   if (!r) rF|= flagZ;
@@ -276,13 +276,13 @@ cl_i8085::DSUB(t_mem code)
 int
 cl_i8085::JNX5(t_mem code)
 {
-  return jmp_if(rF & flagX5);
+  return jmp_if(!(rF & flagX5));
 }
 
 int
 cl_i8085::JX5(t_mem code)
 {
-  return jmp_if(!(rF & flagX5));
+  return jmp_if(rF & flagX5);
 }
 
 int
@@ -300,18 +300,14 @@ cl_i8085::RSTV(t_mem code)
 int
 cl_i8085::LDHI(t_mem code)
 {
-  u16_t a= rHL + fetch();
-  cDE.W(read_addr(rom, a));
-  vc.rd+= 2;
+  cDE.W(rHL + fetch());
   return resGO;
 }
 
 int
 cl_i8085::LDSI(t_mem code)
 {
-  u16_t a= rSP + fetch();
-  cDE.W(read_addr(rom, a));
-  vc.rd+= 2;
+  cDE.W(rSP + fetch());
   return resGO;
 }
 
-- 
2.43.0


From c68bdfcbbd5042de3cdfe524e8629cf56ceaa55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 006/142] fix: taken conditional jumps of 8080 take time

---
 src/sims/i8085.src/i8080.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..8c05955 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -471,7 +471,8 @@ cl_i8080::exec_inst(void)
     {
       u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
-      t>>= tick_shift;
+      if (t > 0xff)
+        t>>= tick_shift;
       t&= 0xff;
       tick(t-1);
       return res;
-- 
2.43.0


From fc9fa0a163ce6e4190da94c5da2636037fb3f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 007/142] fix: HC08 indexed addresses and branch targets wrap
 at 64K

---
 src/sims/m68hc08.src/inst.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..23308f5 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -75,14 +75,14 @@ cl_hc08::fetchea(t_mem code, bool prefix)
     case 0xe:
       tick(1);
       if (!prefix)
-        return ((unsigned char)fetch())+((regs.H << 8) | regs.X); // IX1
+        return (((unsigned char)fetch())+((regs.H << 8) | regs.X)) & 0xffff; // IX1
       else
-        return ((unsigned char)fetch())+regs.SP; // SP1
+        return (((unsigned char)fetch())+regs.SP) & 0xffff; // SP1
     case 0xd:
       if (!prefix)
-        return fetch2()+((regs.H << 8) | regs.X); // IX2
+        return (fetch2()+((regs.H << 8) | regs.X)) & 0xffff; // IX2
       else
-        return fetch2()+regs.SP; // SP2
+        return (fetch2()+regs.SP) & 0xffff; // SP2
     case 0xc:
       return fetch2();
     default:
@@ -348,7 +348,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC += ofs;
+  PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -692,7 +692,7 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1015,7 +1015,7 @@ cl_hc08::inst_condbranch(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1057,7 +1057,7 @@ cl_hc08::inst_bittestsetclear(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   FLAG_ASSIGN (BIT_C, operand & (1 << bit));
@@ -1091,7 +1091,7 @@ cl_hc08::inst_cbeq(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand1==operand2)
-    PC += ofs;  
+    PC = (PC + ofs) & 0xffff;  
 
   if (code == 0x71 || (!prefix && code == 0x61))
     incx();
@@ -1198,7 +1198,7 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
   }
   else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
   {
-    ea = regs.SP + fetch();
+    ea = (regs.SP + fetch()) & 0xffff;
     tick(1);
   }
   else
-- 
2.43.0


From bbdb22c344e2f3518162a0792f476163d2ddf471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 008/142] fix: HC08 DBNZ does not change the flags

---
 src/sims/m68hc08.src/inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 23308f5..1711a1e 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
-- 
2.43.0


From 8d6e2d0be01e1fec818833349a9b22c2c3df6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 009/142] fix: HC08 SWI sets the interrupt mask

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 1711a1e..f338394 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1340,7 +1340,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From f2fbba3ec065d178eff513799a6fee29d6a137fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 010/142] fix: HC08 DAA adjusts the accumulator and sets N, Z,
 C

---
 src/sims/m68hc08.src/inst.cc | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f338394..78caad7 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -893,26 +893,19 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
-
-  lsn = regs.A & 0xf;
-  msn = (regs.A >> 4) & 0xf;
-  if (regs.P & BIT_H) {
-    lsn += 16;
-    msn = (msn-1) & 0xf;
-  }
-  if (regs.P & BIT_C)
-    msn += 16;
-
-  FLAG_CLEAR (BIT_C);
-  while (lsn>9) {
-    lsn -= 10;
-    msn++;
-  }
-  if (msn>9) {
-    msn = msn % 10;
-    FLAG_SET (BIT_C);
-  }
+  uchar corr= 0;
+  bool c= (regs.P & BIT_C) != 0;
+
+  if (((regs.A & 0xf) > 9) || (regs.P & BIT_H))
+    corr|= 0x06;
+  if ((regs.A > 0x99) || c)
+    {
+      corr|= 0x60;
+      c= true;
+    }
+  regs.A+= corr;
+  FLAG_NZ (regs.A);
+  FLAG_ASSIGN (BIT_C, c);
 
   return(resGO);
 }
-- 
2.43.0


From 0565c25056f82b90d16ecf2753e5468ce9805631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 011/142] fix: STM8 relative jumps keep the program counter
 within 24 bits

---
 src/sims/stm8.src/inst.cc | 20 ++++++++++----------
 src/sims/stm8.src/stm8.cc |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sims/stm8.src/inst.cc b/src/sims/stm8.src/inst.cc
index 6bdf9f0..c1b5a4d 100644
--- a/src/sims/stm8.src/inst.cc
+++ b/src/sims/stm8.src/inst.cc
@@ -422,13 +422,13 @@ cl_stm8::inst_btjfbtjt(t_mem code, unsigned char prefix)
   if (code & 0x01) { // btjf
 	pos = (code - 0x01) >> 1;
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & PCmask;
 		tick(1);
 	}
   } else { // btjt
  	pos = (code - 0x00) >> 1;
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & PCmask;
 		tick(1);
 	}
   }
@@ -819,13 +819,13 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
        break;
       case 6: // JRNM (2C) / JRM (2D)
         taken = !(regs.CC & (BIT_I1|BIT_I0));
-        break;
-      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
-        taken = 0;
-        break;
-      default:
-        return(resHALT);
-    }
+        break;
+      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
+        taken = 0;
+        break;
+      default:
+        return(resHALT);
+    }
   }
   else
     return(resHALT);
@@ -837,7 +837,7 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
   ofs = fetch();
   if (taken)
     {
-      PC += ofs;
+      PC = (PC + ofs) & PCmask;
       tick(1);
     }
   return(resGO);
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..e300a56 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1766,7 +1766,7 @@ cl_stm8::exec_inst(void)
              {
                signed char c = (signed char) fetch1();
                push2(PC);
-               PC += c;
+               PC = (PC + c) & PCmask;
 	       tick(3);
                return(resGO);
              }
-- 
2.43.0


From 19c73dd45bbf2e8c12a99d8781c3c060888edd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 012/142] fix: STM8 RET stays in the 64K section of the call

---
 src/sims/stm8.src/stm8.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index e300a56..11e0cfd 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1215,7 +1215,8 @@ cl_stm8::exec_inst(void)
                      return(resINV_INST);
                }
             case 0x80: // ret
-               pop2( PC);
+               pop2( tempi);
+               PC = (PC & 0xff0000) + tempi; // PCE is not stacked by CALL
 	       tick(3);
                return(resGO);
             case 0x10: 
-- 
2.43.0


From 5d4dcc8d8ea94735c5a65628ab1d19d14a0d8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 013/142] fix: ST7 N flag is bit 7 of the result

---
 src/sims/st7.src/inst.cc | 62 ++++++++++------------------------------
 1 file changed, 15 insertions(+), 47 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..5f58bcd 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -523,13 +523,13 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
         break;
       case 6: // JRNM / JRM
         taken = !(regs.CC & BIT_I);
-        break;
-      case 7: // JRIL - interrupt low - no means to test this ???
-        taken = 1; 
-        break;
-      default:
-        return(resHALT);
-    } 
+        break;
+      case 7: // JRIL - interrupt low - no means to test this ???
+        taken = 1; 
+        break;
+      default:
+        return(resHALT);
+    } 
   if (code & 1)
     taken = ! taken;
   
@@ -646,11 +646,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, operand);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -709,11 +705,7 @@ cl_st7::inst_rlc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x100));
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -753,11 +745,7 @@ cl_st7::inst_rrc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -815,11 +803,7 @@ cl_st7::inst_sll(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (opres & 0x100));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -859,11 +843,7 @@ cl_st7::inst_sra(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -899,11 +879,7 @@ cl_st7::inst_srl(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -958,11 +934,7 @@ cl_st7::inst_swap(t_mem code, unsigned char prefix)
    
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -995,11 +967,7 @@ cl_st7::inst_tnz(t_mem code, unsigned char prefix)
    }
    
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    return(resGO);
 }
-- 
2.43.0


From 4e88a61eb4830ca2d338645045314611cf89bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 014/142] fix: ST7 NEG of zero clears the carry

---
 src/sims/st7.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 5f58bcd..9d13a59 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -645,7 +645,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
    operand++;
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   FLAG_ASSIGN (BIT_C, operand);
+   FLAG_ASSIGN (BIT_C, operand & 0xff);
    FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
-- 
2.43.0


From 8dfc46f630de81e6b485a9bcc678921c0206c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 015/142] fix: ST7 LD from memory sets N and Z

---
 src/sims/st7.src/inst.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 9d13a59..23bf8f0 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -554,10 +554,8 @@ cl_st7::inst_ldxy(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((prefix == 0x90) || (prefix == 0x91)) {
      regs.Y = operand;
@@ -575,10 +573,8 @@ cl_st7::inst_lda(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
   regs.A = operand;
    
-- 
2.43.0


From f4b4d7ece1a57ea71abfcdec76c1240dc8b938fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 016/142] fix: ST7 bit instructions with indirect operand

---
 src/sims/st7.src/inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 23bf8f0..a5387b9 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -249,7 +249,7 @@ cl_st7::inst_bcp(t_mem code, unsigned char prefix)
 int
 cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 {
-  int ea = fetch();
+  int ea = (prefix == 0x92) ? get1(fetch()) : fetch();
   unsigned char dbyte = get1( ea);
   
   if (code & 0x01) { // bres  
@@ -269,7 +269,7 @@ cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 int
 cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
-  int ea = fetch();
+  int ea = (prefix == 0x92) ? get1(fetch()) : fetch();
   unsigned char dbyte = get1( ea);
   char reljump = fetch();
   
-- 
2.43.0


From 4e30999a595382559f742bee42875ca50a01c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 017/142] fix: ST7 BTJT and BTJF copy the tested bit to the
 carry

---
 src/sims/st7.src/inst.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index a5387b9..006a80a 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -275,12 +275,14 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
   
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
+	FLAG_ASSIGN (BIT_C, dbyte & (1<<pos));
 	if(!( dbyte & (1<<pos))) {
 		PC += reljump;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
+	FLAG_ASSIGN (BIT_C, dbyte & (1<<pos));
 	if ( dbyte & (1<<pos)) {
 		PC += reljump;
 	}
-- 
2.43.0


From f712f0087051f09fdab6b2b02cec8750d6d1df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 018/142] fix: ST7 relative jumps wrap at 64K

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 006a80a..46218ac 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -277,14 +277,14 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 	char pos = (code - 0x01) >> 1;
 	FLAG_ASSIGN (BIT_C, dbyte & (1<<pos));
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
 	FLAG_ASSIGN (BIT_C, dbyte & (1<<pos));
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC = (PC + reljump) & 0xffff;
 	}
 	
   }
@@ -316,7 +316,7 @@ cl_st7::inst_callr(t_mem code, unsigned char prefix)
    }
    
    push2(PC);
-   PC += newPC;
+   PC = (PC + newPC) & 0xffff;
 
    return(resGO);
 }
@@ -544,7 +544,7 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
    }
 
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
 
   return(resGO);
 }
-- 
2.43.0


From 75a59471bcbafef5c0cd629bbfd978696ee65bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 019/142] fix: ST7 direct and indirect operands of Y register
 instructions

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 46218ac..2754f36 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -51,9 +51,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
   switch ((code >> 4) & 0x0f) {
 	
     case 0xb:
-	  if ( 0 == prefix) {              // short direct
+	  if ( 0 == prefix || 0x90 == prefix) {              // short direct
 		 resaddr = fetch();
-     } else if ( 0x92 == prefix) {    // short indirect - pointer
+     } else if ( 0x92 == prefix || 0x91 == prefix) {    // short indirect - pointer
        resaddr = get1(fetch());
 	  } else {
 	    resaddr = ( resHALT);
@@ -61,9 +61,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
      break;
      
     case 0xc:
-	  if ( 0 == prefix) {              // long direct
+	  if ( 0 == prefix || 0x90 == prefix) {              // long direct
 		resaddr = fetch2();
-	  } else if ( 0x92 == prefix) {    // long indirect - pointer is under 0x100
+	  } else if ( 0x92 == prefix || 0x91 == prefix) {    // long indirect - pointer is under 0x100
        ftc = fetch();
        resaddr = get2(ftc);
 	  } else {
-- 
2.43.0


From e0d8e6734d0f4cbac17fc0d30c606f5f32d26b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 020/142] fix: ST7 JP goes to the effective address

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..f80cc1c 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = fetchea(code, cprefix);
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From 312971706d6c36628613772851aee0ed9f8b301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 021/142] fix: ST7 MUL clears H and C

---
 src/sims/st7.src/st7.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index f80cc1c..0fa440d 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -591,6 +591,8 @@ cl_st7::exec_inst(void)
             } else {
                return (resHALT);
             }
+            FLAG_CLEAR (BIT_H);
+            FLAG_CLEAR (BIT_C);
             return (resGO);
             break;
          case 0xA0:
-- 
2.43.0


From 4f81e233ee8a9c5b0923cc946742e1c2027ade28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 022/142] fix: Z80 rotates and shifts compute parity of their
 own result

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..698977c 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -186,7 +186,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -201,7 +201,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -220,7 +220,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -234,7 +234,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
 }
 
@@ -246,7 +246,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -264,7 +264,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -276,7 +276,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg))    regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -289,7 +289,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg))    regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From 489394e2dd167cab84d394b090ef030468c7b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 023/142] fix: Z80 half carry of ADC and SBC counts the carry

---
 src/sims/z80.src/z80mac.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 698977c..f0fa4cc 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,13 +57,14 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int carry= (regs.raf.F & BIT_C)?1:0;				\
+    res += carry;				\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) + (oper & 0x0F) + carry > 0x0F)  regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
-    if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
-    regs.raf.A += oper;							\
+    if (accu + oper + carry > 0xFF)                    regs.raf.F |= BIT_C;	\
+    regs.raf.A += oper + carry;							\
     if (regs.raf.A == 0)                           regs.raf.F |= BIT_Z;	\
     if (regs.raf.A & 0x80)                         regs.raf.F |= BIT_S;	\
     xy(regs.raf.A);							\
@@ -96,13 +97,14 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int carry= (regs.raf.F & BIT_C)?1:0;				\
+    res += carry;				\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if ((accu & 0x0FFF) + (oper & 0x0FFF) + carry > 0x0FFF) regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
-    if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
-    regs.HL += oper;							\
+    if (accu + oper + carry > 0xFFFF)                       regs.raf.F |= BIT_C; \
+    regs.HL += oper + carry;							\
     if (regs.HL == 0)                               regs.raf.F |= BIT_Z; \
     if (regs.HL & 0x8000)                           regs.raf.F |= BIT_S; \
   }
@@ -128,13 +130,14 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int carry= (regs.raf.F & BIT_C)?1:0;				\
+    res -= carry;				\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) < (oper & 0x0F) + carry)      regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
-    if (accu < oper)                        regs.raf.F |= BIT_C;	\
-    regs.raf.A -= oper;							\
+    if (accu < oper + carry)                        regs.raf.F |= BIT_C;	\
+    regs.raf.A -= oper + carry;							\
     if (regs.raf.A == 0)                        regs.raf.F |= BIT_Z;	\
     if (regs.raf.A & 0x80)                      regs.raf.F |= BIT_S;	\
     xy(regs.raf.A);							\
@@ -145,13 +148,14 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int carry= (regs.raf.F & BIT_C)?1:0;				\
+    res -= carry;				\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0FFF) < (oper & 0x0FFF) + carry)  regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
-    if (accu < oper)                        regs.raf.F |= BIT_C;	\
-    regs.HL -= oper;							\
+    if (accu < oper + carry)                        regs.raf.F |= BIT_C;	\
+    regs.HL -= oper + carry;							\
     if (regs.HL == 0)                       regs.raf.F |= BIT_Z;	\
     if (regs.HL & 0x8000)                   regs.raf.F |= BIT_S;	\
   }
-- 
2.43.0


From 3f6498ad6f8670c8080faec6bb597fb2840c1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 024/142] fix: Z80 word at the last address wraps to address 0

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..c237bea 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((u16_t)(addr+1), (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((u16_t)(addr+1));
   
   return (h << 8) | l;
 }
-- 
2.43.0


From 4cda4dd279caef80610ec5671bf9388a666c8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 025/142] fix: Z80 relative jumps wrap at 64K

---
 src/sims/z80.src/inst.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..51fbaac 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -730,7 +730,7 @@ cl_z80::inst_djnz(t_mem code)
   j = fetch1();
   //tick(7);
   if ((--regs.bc.h != 0)) {
-    PC += j;
+    PC = (PC + j) & 0xffff;
     //tick(5);
     cond_true= true;
   } else {
@@ -771,33 +771,33 @@ cl_z80::inst_jr(t_mem code)
   //tick(6);
   switch(code) {
     case 0x18: // JR dd
-      PC += j;
+      PC = (PC + j) & 0xffff;
       //tick(5);
     break;
     case 0x20: // JR NZ,dd
       if (!(regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x28: // JR Z,dd
       if ((regs.raf.F & BIT_Z)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x30: // JR NC,dd
       if (!(regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
     break;
     case 0x38: // JR C,dd
       if ((regs.raf.F & BIT_C)) {
-        PC += j;
+        PC = (PC + j) & 0xffff;
 	cond_true= true;
         //tick(5);
       }
-- 
2.43.0


From 1da9bd8e401b268569a4b7e1343710d2d8b5cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 026/142] fix: Z80 IN r,(C) sets S and Z and clears H

---
 src/sims/z80.src/inst_ed.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..9955464 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,7 +86,9 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.h);
+      SET_Z(regs.bc.h);
       if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -143,7 +145,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.bc.l);
+      SET_Z(regs.bc.l);
       if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -188,7 +192,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.h);
+      SET_Z(regs.de.h);
       if (parity(regs.de.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -228,7 +234,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.de.l);
+      SET_Z(regs.de.l);
       if (parity(regs.de.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -274,7 +282,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.h);
+      SET_Z(regs.hl.h);
       if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -314,7 +324,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.hl.l);
+      SET_Z(regs.hl.l);
       if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -354,7 +366,9 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
+        regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+        SET_S(x);
+        SET_Z(x);
         if (parity(x)) regs.raf.F |= BIT_P;
         vc.rd++;
 	//tick(11);
@@ -381,7 +395,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_N | BIT_P | BIT_A);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
       if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
-- 
2.43.0


From afa3bb60084ce9e5ae5bf64dcffe8ca00c44e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 027/142] fix: Z80 RLD and RRD set the flags

---
 src/sims/z80.src/inst_ed.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 9955464..fdf6d44 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -319,6 +319,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      regs.raf.F &= ~(BIT_A | BIT_N | BIT_P);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
@@ -360,6 +364,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      SET_S(regs.raf.A);
+      SET_Z(regs.raf.A);
+      regs.raf.F &= ~(BIT_A | BIT_N | BIT_P);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From c42094378fdfa10ba758966b1421799688b9928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 028/142] fix: Z80 RETN and RETI keep IFF2

---
 src/sims/z80.src/inst_ed.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index fdf6d44..f18e32e 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -127,7 +127,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x45: // RETN (return from non-maskable interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;      
       //tick(13);
       return(resGO);
@@ -180,7 +179,6 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x4D: // RETI (return from interrupt)
       pop2(PC);
       IFF1= IFF2;
-      IFF2= false;
       vc.rd+= 2;
       //tick(13);
       return(resGO);
-- 
2.43.0


From 34d267d939862afeba9af45810df34e04d0f3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 029/142] fix: Z80 OUTI and OTIR write to port C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index f18e32e..9e044e8 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -473,7 +473,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -619,7 +619,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From 9d86291d520408b1942947dbe5edd6da31545c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 030/142] fix: Z80 LDDR sets P/V while it repeats

---
 src/sims/z80.src/inst_ed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 9e044e8..36cb270 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -657,6 +657,7 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-- 
2.43.0


From 9d78e82b04cb59a01317c78a54c36b9b6f8d23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 031/142] fix: Z80 CPI, CPD, CPIR and CPDR keep C, set P/V and
 H and count HL in their direction

---
 src/sims/z80.src/inst_ed.cc | 105 ++++++++++--------------------------
 src/sims/z80.src/z80mac.h   |  16 ++++++
 2 files changed, 44 insertions(+), 77 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 36cb270..44054b5 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -445,16 +445,10 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xA1: // CPI
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      {
-        unsigned char tmp;
-        tmp = get1(regs.HL);
-        cp_bytereg(tmp);
-        ++regs.HL;
-        --regs.BC;
-        if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
-      }
+      // compare acc with mem(HL), set Z flag if equal.  Incr HL, decr BC.
+      cp_block(get1(regs.HL), 1);
+      vc.rd++;
+      //tick(15);
       return(resGO);
 
     case 0xA2: // INI
@@ -499,15 +493,8 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
-      }
-      ++regs.HL;
-      --regs.BC;
-      if (regs.BC != 0) regs.raf.F |= BIT_P;
+      // compare acc with mem(HL), set Z flag if equal.  Decr HL, decr BC.
+      cp_block(get1(regs.HL), -1);
       vc.rd++;
       //tick(15);
       return(resGO);
@@ -562,35 +549,16 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xB1: // CPIR
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
-        ++regs.HL;
-        --regs.BC;
-        vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
-	  {
-	    regs.raf.F |= BIT_P;
-	    if (!(regs.raf.F & BIT_Z))
-	      {
-		cond_true= true;
-		repeating= true;
-		PC= instPC;
-	      }
-	  }
+      // compare acc with mem(HL), set Z flag if equal.  Incr HL, decr BC.
+      cp_block(get1(regs.HL), 1);
+      vc.rd++;
+      //tick(15);
+      if (regs.BC && !(regs.raf.F & BIT_Z))
+	{
+	  repeating= true;
+	  cond_true= true;
+	  PC= instPC;
+	}
       return(resGO);
 
     case 0xB2: // INIR
@@ -661,35 +629,18 @@ int  cl_z80::inst_ed_(t_mem code)
 	  }
       return(resGO);
     case 0xB9: // CPDR
-      {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
-	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
-	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
-	    }
-	return(resGO);
-      }
+      // compare acc with mem(HL), set Z flag if equal.  Decr HL, decr BC.
+      cp_block(get1(regs.HL), -1);
+      vc.rd++;
+      //tick(15);
+      if (regs.BC && !(regs.raf.F & BIT_Z))
+	{
+	  repeating= true;
+	  cond_true= true;
+	  PC= instPC;
+	}
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index f0fa4cc..be9a6a6 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -175,6 +175,22 @@
     xy(accu);							    \
   }
 
+/* one step of CPI, CPD, CPIR and CPDR: carry is not affected */
+#define cp_block(br, step)					    \
+  {								    \
+    unsigned int accu = (unsigned int)regs.raf.A;		    \
+    unsigned int oper = (unsigned int)(br);			    \
+    regs.raf.F &= ~(BIT_N | BIT_P | BIT_A | BIT_Z | BIT_S);	    \
+    regs.raf.F |= BIT_N;      /* not addition */		    \
+    if ((accu & 0x0F) < (oper & 0x0F))  regs.raf.F |= BIT_A;	    \
+    accu -= oper;						    \
+    if (accu == 0)   regs.raf.F |= BIT_Z;			    \
+    if (accu & 0x80) regs.raf.F |= BIT_S;			    \
+    regs.HL += (step);						    \
+    --regs.BC;							    \
+    if (regs.BC != 0) regs.raf.F |= BIT_P;			    \
+  }
+
 #define rr_byte(reg)					    \
   {							    \
     if (regs.raf.F & BIT_C) {				    \
-- 
2.43.0


From 01bf72fd7f28572a92bcabf728b82fd43c1f24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 032/142] fix: Z80 indexed SET n copies to L, not to H

---
 src/sims/z80.src/inst_xxcb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/z80.src/inst_xxcb.cc b/src/sims/z80.src/inst_xxcb.cc
index 2df88c4..949fc42 100644
--- a/src/sims/z80.src/inst_xxcb.cc
+++ b/src/sims/z80.src/inst_xxcb.cc
@@ -480,7 +480,7 @@ cl_z80::inst_XXcb_set(t_mem code)
     case 0x4: // SET x,H
       regs.hl.h = tmp; break;
     case 0x5: // SET x,L
-      regs.hl.h = tmp; break;
+      regs.hl.l = tmp; break;
     case 0x6: // SET x,(HL)
       break;
     case 0x7: // SET x,A
-- 
2.43.0


From 4796d40dfe025edfc5f8ac628e90d02402f4ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 033/142] fix: GB80 word at the last address wraps to address 0

---
 src/sims/z80.src/gb80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..404c3cb 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -239,7 +239,7 @@ void
 cl_gb80::store2(u16_t addr, u16_t val)
 {
   rom->write(addr, val);
-  rom->write(addr+1, val>>8);
+  rom->write((u16_t)(addr+1), val>>8);
 }
 
 u8_t
@@ -252,7 +252,7 @@ u16_t
 cl_gb80::get2(u16_t addr)
 {
   u8_t l= rom->read(addr);
-  u8_t h= rom->read(addr+1);
+  u8_t h= rom->read((u16_t)(addr+1));
   return (h<<8)|l;
 }
 
-- 
2.43.0


From 64625287b6aca4ecbfe2922c16f03f66e82ead22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 034/142] fix: GB80 ADD SP,d and LDHL SP,d set H and C from the
 low byte

---
 src/sims/z80.src/inst_gb80.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 928b81e..c93be74 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -324,9 +324,9 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   d |= (d>>7)*0xFF00;
   
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.SP = (regs.SP + d) & 0xffff;
@@ -358,9 +358,9 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
   d |= (d>>7)*0xFF00;
 
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-- 
2.43.0


From 4f17075b8bf450fc944d7ae488dc95e2e18f361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 035/142] fix: GB80 DAA and CCF follow the flag rules of the
 SM83

---
 src/sims/z80.src/gb80cl.h     |  3 +++
 src/sims/z80.src/inst_gb80.cc | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e859f24..d4784d8 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -101,6 +101,9 @@ public:
   virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
 
+  virtual int inst_daa  (t_mem code);
+  virtual int inst_ccf  (t_mem code);
+
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
   
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index c93be74..ad76da0 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -226,6 +226,35 @@ int cl_gb80::inst_add(t_mem code)
   return(resGO);
 }
 
+int cl_gb80::inst_daa(t_mem code)
+{
+  u8_t incr= 0, a= regs.raf.A;
+  u8_t C= regs.raf.F & BIT_C;
+  u8_t N= regs.raf.F & BIT_N;
+
+  if ((regs.raf.F & BIT_A) || (!N && ((a & 0x0f) > 9)))
+    incr|= 0x06;
+  if (C || (!N && (a > 0x99)))
+    {
+      incr|= 0x60;
+      C= BIT_C;
+    }
+  regs.raf.A= N?(a - incr):(a + incr);
+  regs.raf.F&= ~(BIT_ALL);
+  regs.raf.F|= N | C;
+  if (regs.raf.A == 0)
+    regs.raf.F|= BIT_Z;
+  return(resGO);
+}
+
+int cl_gb80::inst_ccf(t_mem code)
+{
+  /* half carry is cleared, it does not get the old carry */
+  regs.raf.F&= ~(BIT_A | BIT_N);
+  regs.raf.F^= BIT_C;
+  return(resGO);
+}
+
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
-- 
2.43.0


From 1e1f625e47cad42b190d35d9e3807b827479ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 036/142] fix: validate_address wraps the address just behind
 the memory

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..5ca8218 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From 80283409434a0b76f00eb290ba3466170e449163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 037/142] fix: MCS-51 MOVC wraps at 64K

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..87eee5f 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read((u16_t)(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read((u16_t)(h*256 + l + acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From b6af0268c586902fc44f60a310ab410913a08102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 038/142] fix: AVR immediate of CPI, SUBI and SBCI uses all
 eight bits

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..259409c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
-- 
2.43.0


From 755e857e65a6e623e6199c4f3f7b6badd7af2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 039/142] fix: AVR SBC, SBCI and CPC subtract the carry

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 259409c..4be4ef4 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
-- 
2.43.0


From 174dc11340b3be18eef9f19752672dda581ddb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 040/142] fix: AVR ROR shifts the register

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 4be4ef4..dcc3a18 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -751,7 +751,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
-- 
2.43.0


From 45dd1ff9e6cf91c7882ccb23bfc0dd52cf4ebeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 041/142] fix: AVR ADC half carry counts the carry in

---
 src/sims/avr.src/arith_inst.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index dcc3a18..5611e59 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -485,7 +485,8 @@ cl_avr::adc_Rd_Rr(t_mem code)
   R= ram->read(r);
   D= ram->read(d);
   t_mem sreg= ram->get(SREG);
-  result= D+R+((sreg&BIT_C)?1:0);
+  t_mem c= (sreg&BIT_C)?1:0;
+  result= D+R+c;
   res= result & 0xff;
   ram->write(d, res);
   
@@ -509,7 +510,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + c > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From f345a5daa98720c14a7c32a3ba0cc68e9e85947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 042/142] fix: AVR NEG half carry

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 5611e59..1c40c0a 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -576,7 +576,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From 33985f7a3312748664504d3f4501e204bb0be2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 043/142] fix: AVR MUL sets Z

---
 src/sims/avr.src/arith_inst.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 1c40c0a..b507785 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -845,9 +845,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!resl && !resh)
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
-- 
2.43.0


From bc4f262bfb70c4257b1c8c70ac5f12ac0b1202ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 044/142] fix: AVR ADIW overflow flag

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index b507785..c3f7cda 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -883,7 +883,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
-- 
2.43.0


From c6f486e34c15edb20e265dd79298577949e9ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 045/142] fix: AVR SBIW immediate is not signed

---
 src/sims/avr.src/arith_inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index c3f7cda..3a5bc4d 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -921,8 +921,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
-- 
2.43.0


From 669425cae68be5eb4e2218cae4d1e771326ba172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 046/142] fix: AVR ORI and ANDI operate on R16..R31

---
 src/sims/avr.src/logic_inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
-- 
2.43.0


From dd69bb953a90f79832480a27a38b796e6c58e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 047/142] fix: AVR LPM addresses the program memory by bytes

---
 src/sims/avr.src/move_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..cd7aa41 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From 1fc3fd2e56a92e73c6ad8b88a3f6e564268a6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 048/142] fix: AVR SBIC and SBIS skip the length of the next
 instruction

---
 src/sims/avr.src/jump_inst.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..fe0078f 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -384,9 +384,8 @@ cl_avr::sbic_P_b(t_mem code)
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
+      int size= inst_length(PC);
+      while (size > 0)
 	{
 	  fetch();
 	  size--;
@@ -414,9 +413,8 @@ cl_avr::sbis_P_b(t_mem code)
   vc.rd++;
   if (mask & ram->read(addr))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
+      int size= inst_length(PC);
+      while (size > 0)
 	{
 	  fetch();
 	  size--;
-- 
2.43.0


From 14c23f9de533fc7a2dab05f326c209e2fba265fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 049/142] fix: AVR LDD and STD address wraps at 64K

---
 src/sims/avr.src/move_inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cd7aa41..f6a38ff 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -118,7 +118,7 @@ cl_avr::ldd_Rd_Z_q(t_mem code)
   d= (code&0x1f0)>>4;
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   z= ram->get(ZH)*256 + ram->get(ZL);
-  t_mem data= ram->read(z+q);
+  t_mem data= ram->read((z+q)&0xffff);
   vc.rd++;
   ram->write(d, data);
   tick(1);
@@ -142,7 +142,7 @@ cl_avr::ldd_Rd_Y_q(t_mem code)
   d= (code&0x1f0)>>4;
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   y= ram->get(YH)*256 + ram->get(YL);
-  t_mem data= ram->read(y+q);
+  t_mem data= ram->read((y+q)&0xffff);
   vc.rd++;
   ram->write(d, data);
   tick(1);
@@ -167,7 +167,7 @@ cl_avr::std_Z_q_Rr(t_mem code)
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   z= ram->get(ZH)*256 + ram->get(ZL);
   t_mem data= ram->read(r);
-  ram->write(z+q, data);
+  ram->write((z+q)&0xffff, data);
   vc.wr++;
   tick(1);
   return(resGO);
@@ -191,7 +191,7 @@ cl_avr::std_Y_q_Rr(t_mem code)
   q= ((code&0x2000)>>8)|((code&0xc00)>>7)|(code&0x7);
   y= ram->get(YH)*256 + ram->get(YL);
   t_mem data= ram->read(r);
-  ram->write(y+q, data);
+  ram->write((y+q)&0xffff, data);
   vc.wr++;
   tick(1);
   return(resGO);
-- 
2.43.0


From 89c3e62f2b545a8d1d278c1a8028ea2517503922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 050/142] fix: memory chip computes the address of a slot from
 the slot size

---
 src/core/sim.src/mem.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 5ca8218..a36e6c1 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2129,12 +2129,7 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
   if (p > &(a[alloc_size-1]))
     return false;
   t_addr i= p - a;
-  if (width <= 8)
-    /*i*/;
-  if (width <= 16)
-    i= i/2;
-  if (width <= 32)
-    i= i/4;
+  i= i/bwidth;
   if (addr_of)
     *addr_of= i;
   return true;
-- 
2.43.0


From c0e49ecd3554ee4e0eb900b932404043e9cd03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 051/142] fix: address decoder that is one location longer than
 the rest of the chip is refused

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index a36e6c1..d9a8a48 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2359,7 +2359,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
-- 
2.43.0


From c97dacaa1da6b7dbe085e5a2cc9ce402fcc962ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 052/142] fix: search_cell reports the address of the cell

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index d9a8a48..ae10fd6 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1773,7 +1773,7 @@ cl_address_space::search_cell(enum cell_flag flag, bool value, t_addr *addr)
 	  (!f && !value))
 	{
 	  if (addr)
-	    *addr= i;
+	    *addr= start_address+i;
 	  return &cella[i];
 	}
     }
-- 
2.43.0


From d5a4164bc11582010b34832a6b3a430b1ddfa3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 053/142] fix: deletion of the operators of a cell that has
 none

---
 src/core/sim.src/mem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index ae10fd6..0ec5933 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1364,6 +1364,8 @@ cl_memory_cell::del_operator(class cl_brk *brk)
       else
 	old= ops[src];
     }
+  if (!ops)
+    return;
   ops[dst]= NULL;
   if (old)
     delete old;
@@ -1388,6 +1390,8 @@ cl_memory_cell::del_operator(class cl_hw *hw)
       else
 	old= ops[src];
     }
+  if (!ops)
+    return;
   ops[dst]= NULL;
   if (old)
     delete old;
-- 
2.43.0


From 6fe801b8ee90c356d099680bafb392648495aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 054/142] fix: negative bank number is refused

---
 src/core/sim.src/mem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 0ec5933..abc6963 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2703,7 +2703,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   if (!chip->is_chip())
     return;
 
-  if (bank_nr >= nuof_banks)
+  if (bank_nr < 0 ||
+      bank_nr >= nuof_banks)
     return;
   
   class cl_address_decoder *ad= new cl_address_decoder(address_space,
-- 
2.43.0


From 052aee71436f48f3e8e5fc43b91c8ee800213a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 055/142] fix: replacing a bank keeps the banked area decoded

---
 src/core/sim.src/mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index abc6963..888fbeb 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2716,6 +2716,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
     {
       delete banks[bank_nr];
       banks[bank_nr]= 0;
+      // cells are undecoded now, decode them again
+      bank= -1;
     }
   banks[bank_nr]= ad;
   /*
-- 
2.43.0


From 872be4b4e0a1c8a70162d796624cdd7b12ba6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 056/142] fix: breakpoint at an address that does not exist can
 be deleted

---
 src/core/sim.src/uc.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..c6a59f6 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3768,7 +3768,7 @@ cl_uc::rm_brk(int nr)
 
   if ((bp= brk_by_nr(fbrk, nr)))
     {
-      fbrk->del_bp(bp->addr);
+      fbrk->del_bp(fbrk->index_of(bp), 0);
       return(true);
     }
   else if ((bp= brk_by_nr(ebrk, nr)))
@@ -3789,10 +3789,7 @@ void
 cl_uc::remove_all_breaks(void)
 {
   while (fbrk->count)
-    {
-      class cl_brk *brk= (class cl_brk *)(fbrk->at(0));
-      fbrk->del_bp(brk->addr);
-    }
+    fbrk->del_bp(fbrk->count-1, 0);
   while (ebrk->count)
     ebrk->del_bp(ebrk->count-1, 0);
 }
-- 
2.43.0


From dc8d0704749c54ce5c08e84c9e30956328e47f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 057/142] fix: temporary event breakpoint is deleted when it is
 accepted

---
 src/core/sim.src/uc.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index c6a59f6..dbe1d8d 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3841,6 +3841,15 @@ cl_uc::check_events(void)
 	(class cl_ev_brk *)(events->object_at(i));
       brk->breaking();
     }
+  for (i= 0; i < events->count; i++)
+    {
+      void *brk= events->object_at(i);
+      int j;
+      for (j= 0; j < ebrk->count && ebrk->at(j) != brk; j++) ;
+      if (j < ebrk->count &&
+	  ((class cl_brk *)brk)->perm == brkDYNAMIC)
+	ebrk->del_bp(j, 0);
+    }
 }
 
 void
-- 
2.43.0


From 3dab758bd91d631514a393c3e81c8a68e77c2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 058/142] fix: event breakpoint does not hide the value that
 the hardware element gives

---
 src/core/sim.src/mem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 888fbeb..230cd3a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1435,7 +1435,8 @@ cl_memory_cell::set_brk(class cl_uc *uc, class cl_brk *brk)
       break;
     }
   if (op)
-    append_operator(op);
+    // last operator decides about the value which is read
+    prepend_operator(op);
 }
 
 void
-- 
2.43.0


From a5ae74fbcf5f3a7a75e63d6a8d92edae9555aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 059/142] fix: loading of a hex file does not overwrite the
 word at address 0 of a wide memory

---
 src/core/sim.src/uc.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index dbe1d8d..fc7da02 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1579,6 +1579,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
   long written= 0, recnum= 0;
 
   uint  base= 0;  // extended address, added to every address
+  uint  paddr= 0; // address of a word which is not complete yet
   uchar dnum;     // data number
   uchar rtyp=0;   // record type
   uint  addr= 0;  // address
@@ -1652,7 +1653,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			    {
 			      switch (get_low)
 				{
-				case 0: lows[0]= rec[i]; get_low++; break;
+				case 0: lows[0]= rec[i]; get_low++; paddr= base+addr; break;
 				case 1: lows[1]= rec[i];
 				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
 				  addr++;
@@ -1665,7 +1666,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			    {
 			      switch (get_low)
 				{
-				case 0: lows[0]= rec[i]; get_low++; break;
+				case 0: lows[0]= rec[i]; get_low++; paddr= base+addr; break;
 				case 1: lows[1]= rec[i]; get_low++; break;
 				case 2: lows[2]= rec[i]; get_low++; break;
 				case 3: lows[3]= rec[i];
@@ -1704,11 +1705,11 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
+  if (get_low > 0)
     {
       for (i= get_low; i<4; i++)
 	lows[i]= 0;
-      set_rom(is, addr,
+      set_rom(is, paddr,
 	      (lows[3]<<24)+
 	      (lows[2]<<16)+
 	      (lows[1]<<8)+
-- 
2.43.0


From cccb7fad7374b875ce410f4dda0301b114699932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 060/142] fix: hex file is loaded into a memory of 17..24 bits
 in units of 3 bytes

---
 src/core/sim.src/uc.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index fc7da02..6bacee0 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1662,6 +1662,24 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 				  break;
 				}
 			    }
+			  else if (mem->width <= 24)
+			    {
+			      switch (get_low)
+				{
+				case 0: lows[0]= rec[i]; get_low++; paddr= base+addr; break;
+				case 1: lows[1]= rec[i]; get_low++; break;
+				case 2: lows[2]= rec[i];
+				  set_rom(is, base+addr,
+					  (lows[2]<<16)+
+					  (lows[1]<<8)+
+					  (lows[0]),
+					  check);
+				  addr++;
+				  written++;
+				  get_low= 0;
+				  break;
+				}
+			    }
 			  else if (mem->width <= 32)
 			    {
 			      switch (get_low)
-- 
2.43.0


From b97f3cf6563bd7f2405cec51db2de27af30c0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 061/142] fix: address of an s19 record is divided by the
 number of bytes in a word

---
 src/core/sim.src/uc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 6bacee0..d2d0b50 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2098,8 +2098,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
   if (is->get_mem()->width > 8)
     {
       if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      else if (is->get_mem()->width <= 24) a/= 3;
+      else if (is->get_mem()->width <= 32) a/= 4;
     }
   while (b < data_bytes)
     {
-- 
2.43.0


From d68cc2866116318038825a1199d6b69215ce8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 062/142] fix: checksum of an s19 record is not taken as part
 of the last word

---
 src/core/sim.src/uc.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index d2d0b50..bb3fa61 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2114,7 +2114,7 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
       else if (is->get_mem()->width <= 16)
 	{
 	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
+	  d1= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
@@ -2122,8 +2122,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
       else if (is->get_mem()->width <= 24)
 	{
 	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
+	  d1= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d2= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d2<<16)+(d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
@@ -2131,9 +2131,9 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
       else if (is->get_mem()->width <= 32)
 	{
 	  d0= h2(s, p); p+= 2; b++;
-	  d1= h2(s, p); p+= 2; b++;
-	  d2= h2(s, p); p+= 2; b++;
-	  d3= h2(s, p); p+= 2; b++;
+	  d1= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d2= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
+	  d3= (b < data_bytes)?h2(s, p):0; p+= 2; b++;
 	  v= (d3<<24)+(d2<<16)+(d1<<8)+d0;
 	  uc->set_rom(is, a, v, check);
 	  a++;
-- 
2.43.0


From e5840e7a8c87440c5917a0bdc2f9f63c02a7d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 063/142] fix: file is loaded into and verified with the
 specified memory, verification of a banked area does not write

---
 src/core/sim.src/uc.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index bb3fa61..0d76c04 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1495,25 +1495,26 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       return eq;
     }
   // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr la= mem->lowest_valid_address();
   t_addr ha= mem->highest_valid_address();
   if ((addr >= la) && (addr <= ha))
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	as->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
@@ -1521,7 +1522,15 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
 	  return true;
 	}
       d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      if (check)
+	{
+	  v= mem->read(caddr);
+	  if (!(eq= val == v))
+	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
+				   AU32(addr), MU32(val), MU32(v));
+	}
+      else
+	as->download(caddr, val);
       d->activate(NULL);
     }
   else
-- 
2.43.0


From 3f2a04364c96cfd6540ff2fb19aaf067f5263223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 064/142] fix: download without specification goes into the
 code memory

---
 src/core/sim.src/uc.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 0d76c04..f1e1adb 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -534,6 +534,7 @@ cl_inspec::cl_inspec(chars aspec, class cl_uc *auc)
   uc= auc;
   use_min= 0;
   use_max= 0xffffffff;
+  mem= uc->rom;
 }
 
 int
@@ -2275,8 +2276,9 @@ cl_uc::read_file(chars nam, class cl_console_base *con, bool check)
   is.init();
   if (is.get_mem() == NULL)
     {
-      con->dd_printf("Memory %s can not be found\n",
-		     is.get_mem_name()->cstr());
+      if (con)
+	con->dd_printf("Memory %s can not be found\n",
+		       is.get_mem_name()->cstr());
       return 0;
     }
   cl_f *f= find_loadable_file(*is.get_file_name());
-- 
2.43.0


From 5b9fcbb0c749a158c92e74ebf89036c21681e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 065/142] fix: data of an OMF content record starts at the
 offset of the record

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f1e1adb..1497c59 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1762,7 +1762,7 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
-- 
2.43.0


From f591b5aeaf15f6f01bfe9e5b35b5e259d7187f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 066/142] fix: reading after the end of a file does not hang

---
 src/core/utils.src/fio.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..f294935 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -921,7 +921,8 @@ int
 cl_f::get_c(void)
 {
   int c;
-  while (!check_dev())
+  while (!check_dev() &&
+	 !eof())
     ;
   int i= read_dev(&c, 1);
   if (i > 0)
-- 
2.43.0


From 8252f15cd1aeb9d8f778205598da8dc39e15c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 067/142] fix: last character of a file without new line is not
 lost

---
 src/core/utils.src/fio.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index f294935..caa7931 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -935,27 +935,23 @@ chars
 cl_f::get_s(void)
 {
   chars s= "";
-  char c;
+  int c;
 
-  if (eof())
-    return s;
-  c= get_c();
-  while ((c == '\n') ||
-	 (c == '\r'))
+  do
     {
       if (eof())
 	return s;
       c= get_c();
     }
-  if (eof())
-    return s;
-  s+= c;
-  c= get_c();
-  while (!eof() &&
-	 (c != '\n') &&
+  while ((c == '\n') ||
+	 (c == '\r'));
+  while ((c != '\n') &&
 	 (c != '\r'))
     {
-      s+= c;
+      if (c > 0)
+	s+= (char)c;
+      if (eof())
+	return s;
       c= get_c();
     }
   return s;
-- 
2.43.0


From e1ba6acf14780043225ad2daacd2c3d0312140a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 068/142] fix: last line of asc and p2h files is loaded

---
 src/core/sim.src/uc.cc | 82 +++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 58 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1497c59..885ea13 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1774,49 +1774,22 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 long
 cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 {
-  int c;
   chars line= chars();
-  bool in;
   t_addr addr= 0;
   
-  in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof())
     {
-      if (in)
+      chars word= chars();
+      line= f->get_s();
+      line.trim();
+      line.start_parse();
+      word= line.token(" ");
+      if (word.nempty() &&
+	  isxdigit(word.c(0)))
 	{
-	  if ((c=='\n') || (c=='\r'))
-	    {
-	      in= false;
-	      {
-		chars word= chars();
-		const char *s;
-		// process
-		line.trim();
-		line.start_parse();
-		word= line.token(" ");
-		s= word.c_str();
-		if (isxdigit(*s))
-		  {
-		    t_mem d= chars(s).htoi();
-		    set_rom(is, addr, d, check);
-		    addr++;
-		  }
-		line= "";
-	      }
-	    }
-	  else
-	    line.append(c);
-	}
-      else // out
-	{
-	  if ((c=='\n') || (c=='\r'))
-	    ;
-	  else
-	    {
-	      in= true;
-	      line.append(c);
-	    }
+	  t_mem d= word.htoi();
+	  set_rom(is, addr, d, check);
+	  addr++;
 	}
     }
   return addr;
@@ -1826,32 +1799,25 @@ long
 cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
 {
   chars line= chars();
-  int c;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof())
     {
-      if ((c=='\n') || (c=='\r'))
+      line= f->get_s();
+      line.trim();
+      line.start_parse();
+      chars w1= line.token(" \t");
+      chars w2= line.token(" \t");
+      chars w3= line.token(" \t");
+      if (w1.nempty() && w2.nempty() && w3.nempty())
 	{
-	  line.trim();
-	  line.start_parse();
-	  chars w1= line.token(" \t");
-	  chars w2= line.token(" \t");
-	  chars w3= line.token(" \t");
-	  if (w1.nempty() && w2.nempty() && w3.nempty())
+	  if ((w2 == "//C") || (w2 == "//I"))
 	    {
-	      if ((w2 == "//C") || (w2 == "//I"))
-		{
-		  t_mem v= w1.htoi();//strtol(w1.c_str(), 0, 16);
-		  t_addr a= w3.htoi();//strtol(w3.c_str(), 0, 16);
-		  set_rom(is, a, v, check);
-		  nr++;		  
-		}
+	      t_mem v= w1.htoi();//strtol(w1.c_str(), 0, 16);
+	      t_addr a= w3.htoi();//strtol(w3.c_str(), 0, 16);
+	      set_rom(is, a, v, check);
+	      nr++;
 	    }
-	  line= "";
 	}
-      else
-	line.append(c);
     }
   return nr;
 }
-- 
2.43.0


From b59857af204cc1210311ba287c76e81c8d576945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 069/142] fix: verification of a file is not an access of the
 program

---
 src/core/sim.src/uc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 885ea13..bb34aa7 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1486,7 +1486,7 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
     {
       if (check)
 	{
-	  v= mem->read(addr);
+	  v= mem->get(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
@@ -1503,7 +1503,7 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
     {
       if (check)
 	{
-	  v= mem->read(addr);
+	  v= mem->get(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
@@ -1525,7 +1525,7 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       d->switch_to(bank, NULL);
       if (check)
 	{
-	  v= mem->read(caddr);
+	  v= mem->get(caddr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
-- 
2.43.0


From 03742d8df45fd4f2c902b31d08755b1f7f548a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 070/142] fix: length of a string is right after trimming
 spaces at its end

---
 src/core/utils.src/chars.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/utils.src/chars.cc b/src/core/utils.src/chars.cc
index 64daf26..2b64c23 100644
--- a/src/core/utils.src/chars.cc
+++ b/src/core/utils.src/chars.cc
@@ -366,6 +366,7 @@ chars::rtrim(void)
 	break;
       i--;
     }
+  chars_length= i+1;
 }
 
 void
-- 
2.43.0


From c2ad73cc1d87423648f02f2ee4d3548cd26a9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 071/142] fix: byte 0xff in a file is not taken as the end of
 the data

---
 src/core/utils.src/fio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index caa7931..4538210 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(ci);
     }
 
   int l= strlen(line);
-- 
2.43.0


From 5af86886d90a98acade555d90cd2c71ae53c6d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 072/142] fix: m6800: loads and stores set Z from the operand
 and keep C

---
 src/core/motorola.src/imove68.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..ad0f409 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,9 +73,9 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write((a+1)&0xffff, op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
-- 
2.43.0


From 72e419b0946a1f276979df0539a25a9053f3c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 073/142] fix: m6800: half carry of ADC includes the carry in

---
 src/core/motorola.src/ialu68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..ebb60ee 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -90,7 +90,7 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ((c && orgc)?1:0) > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
-- 
2.43.0


From df50f23104d147171bc9d5f5a3c8c431932cf155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 074/142] fix: m6800, m6801: overflow and carry of CPX

---
 src/core/motorola.src/ialu68.cc | 11 +++--------
 src/core/motorola.src/m6801.cc  | 11 +++--------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index ebb60ee..9b95b3c 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -308,17 +308,12 @@ int
 cl_m6800::cpx(u16_t op)
 {
   u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX;
   u8_t f= rF & ~(flagN|flagZ|flagV);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
+  r= x-op;
   if (r&0x8000) f|= flagN;
   if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if ((x^op) & (x^r) & 0x8000) f|= flagV;
   cCC.W(f);
   return resGO;
 }
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..7a8f94b 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -168,17 +168,12 @@ int
 cl_m6801::cpx(u16_t op)
 {
   u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
+  r= x-op;
   if (r&0x8000) f|= flagN;
   if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if ((x^op) & (x^r) & 0x8000) f|= flagV;
   if (op > x)
     f|= flagC;
   cCC.W(f);
-- 
2.43.0


From e1c6acd91a23516347a481ae6bee24555877eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 075/142] fix: m6801: N, V and C of ADDD and SUBD were computed
 in 8 bits

---
 src/core/motorola.src/m6801.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 7a8f94b..89689ae 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -128,7 +128,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -149,7 +149,7 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
   u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
-- 
2.43.0


From 8d25827db15bfaa8dee9225c401a65b9e2144458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 076/142] fix: m6800, m6801: word accesses wrap at the end of
 the address space

---
 src/core/motorola.src/m6800.cc | 2 +-
 src/core/motorola.src/m6801.cc | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..b827e5b 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -464,7 +464,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 89689ae..0769349 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -205,7 +205,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write((addr+1)&0xffff, rB);
   vc.wr+= 2;
   return resGO;
 }
@@ -215,7 +215,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write((rSP-1)&0xffff, rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -225,7 +225,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= read_addr(rom, (rSP+1)&0xffff);
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From ab6e6ff54811093385ece7c859c2911424d93aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 077/142] fix: m6800, m68hc11: JMP indexed wraps at 16 bits and
 uses Y after the 0x18 prefix

---
 src/core/motorola.src/ibranch68.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..16404e2 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -64,9 +64,7 @@ cl_m6800::branch(t_addr a, bool cond)
 int
 cl_m6800::JMPi(t_mem code)
 {
-  t_addr a= fetch();
-  a+= rX;
-  PC= a;
+  PC= iaddr();
   return resGO;
 }
 
-- 
2.43.0


From 303ef10d58c0032a091fbc68a879fa8e052657b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 078/142] fix: m6800: RTI keeps the two unused condition code
 bits set

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index b827e5b..44b3add 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -546,7 +546,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From 62cbfebb2c3bbbf3ac35bf52c74bafc4f061fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 079/142] fix: m68hc11: interrupt stacking includes Y, CPX sets
 C

---
 src/core/motorola.src/m68hc11.cc  | 37 +++++++++++++++++++++++++++++++
 src/core/motorola.src/m68hc11cl.h |  4 ++++
 2 files changed, 41 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..cbb6230 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -452,6 +452,43 @@ CL11::PAGECD(t_mem code)
 }
 
 
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(7);
+}
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  cCC.W(rom->read(++rSP));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(7);
+}
+
+
 /* 
  * OTHER instructions
  */
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..05b806f 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -84,6 +84,10 @@ public:
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual int longest_inst(void) { return 6; }
 
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
+  virtual int cpx(u16_t op) { return cp16(cIX, op); }
+
   // MOVE
   virtual int ldd16(u16_t op);
   virtual int std16(t_addr addr);
-- 
2.43.0


From 3b4e27caf0fd8fb1308c2452ee347de73d778795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 080/142] fix: m68hc11: LDD, STD and BSET clear V

---
 src/core/motorola.src/m68hc11.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index cbb6230..cc10149 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -516,7 +516,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -528,7 +528,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -635,7 +635,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
-- 
2.43.0


From 224f225bd4d243a07143e744dfc49393819cc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 081/142] fix: m68hc11: IDIV and FDIV used the quotient as
 divisor of the remainder, X on overflow and zero divisor

---
 src/core/motorola.src/m68hc11.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index cc10149..5ba1b2e 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -682,14 +682,15 @@ CL11::IDIV(t_mem code)
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if (rX == 0)
     {
-      q= 0xffff;
-      r= rX;
+      cX.W(q= 0xffff);
       f|= flagC;
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      q= rD/rX;
+      r= rD%rX;
+      cX.W(q);
+      cD.W(r);
     }
   if (!q) f|= flagZ;
   cF.W(f);
@@ -700,20 +701,21 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
+  u32_t n= (u32_t)rD << 16;
   u16_t q, r;
   u8_t f= rF & ~(flagZ|flagV|flagC);
-  if( rX <= rD) f|= flagV;
-  if (rX == 0)
+  if (rX <= rD)
     {
-      q= 0xffff;
-      r= rX;
-      f|= flagC;
+      f|= flagV;
+      if (rX == 0) f|= flagC;
+      cX.W(q= 0xffff);
     }
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      q= n/rX;
+      r= n%rX;
+      cX.W(q);
+      cD.W(r);
     }
   if (!q) f|= flagZ;
   cF.W(f);
-- 
2.43.0


From d80cce64f4503db6cbf19c82d9df6e240e080244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 082/142] fix: m68hc11: ABY adds to Y

---
 src/core/motorola.src/m68hc11.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 5ba1b2e..944ba85 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -754,7 +754,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
-- 
2.43.0


From 7fd4a063a1017657ef24dbe7cfe3afb6aa992149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 083/142] fix: m68hc11: opcode of CPY n,X and CPX n,Y

---
 src/core/motorola.src/m68hc11.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 944ba85..afb2e14 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -428,7 +428,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -444,7 +444,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
-- 
2.43.0


From 0aa4f33bf7ca7e22d826b113617328058f818fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 084/142] fix: m6809: arithmetic instructions set the E, F and
 I condition code bits

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..a32569d 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1003,7 +1003,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
 
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
   if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
@@ -1033,7 +1033,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
-- 
2.43.0


From 98e8fde8db5d27321c1e369751d8eb6070605e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 085/142] fix: m6809: half carry of ADC when the low digit of
 the operand is 15

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index a32569d..fe56df9 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1004,7 +1004,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
   if (c) { ++res, ++o; }
   
   reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  if ((d & 0xf) + (op & 0xf) + (c?1:0) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
-- 
2.43.0


From b2beaaf0a8e48057ec7487fa2cb2a3a72453ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 086/142] fix: m6809: CLR sets the Z flag

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index fe56df9..ec24ef2 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2027,7 +2027,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
-- 
2.43.0


From fd0dd440f9ecb6b257b6a5505e2d7146e597ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 087/142] fix: m6809: ASL sets the V flag

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index ec24ef2..b3e6d12 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1918,6 +1918,8 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
+
+  SET_O( (op8&0x80) ^ ((op8<<1)&0x80) );
   
   op8<<= 1;
 
-- 
2.43.0


From ea62775621b329d1b31800caae5f0d5f1215eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 088/142] fix: m6809: STY and STS were swapped

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b3e6d12..757e2b2 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2266,9 +2266,9 @@ cl_m6809::inst_page1(t_mem code)
       break;
     case 0xf: // STY, STS
       if (code & 0x40)
-	inst_st16(code, reg.Y, ea);
-      else
 	inst_st16(code, reg.S, ea);
+      else
+	inst_st16(code, reg.Y, ea);
       break;
     }
   
-- 
2.43.0


From 0ff375d6de3269d5c7a4998087417439c08028c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 089/142] fix: m6809: SWI2 and SWI3 were reported as invalid
 instructions

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 757e2b2..56cd2ac 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2175,6 +2175,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2294,6 +2295,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
-- 
2.43.0


From 323934f8cca5b7f86c25826f76bc50ffc9f0a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 090/142] fix: m6809: EXG with PC dereferenced a null pointer

---
 src/sims/m6809.src/m6809.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 56cd2ac..d5fdedd 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1421,9 +1421,10 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R1= reg16_ptr[r1&7];
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
+	    u16_t t2= (R2)?*R2:PC;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    if (R1) *R1= t2; else PC= t2;
+	    if (R2) *R2= t; else PC= t;
 	  }
 	else
 	  {
-- 
2.43.0


From 16afd6e17bf1b20fb0b8b024ed9bd1a283edcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 091/142] fix: m6809: addresses and branches wrap at 16 bits

---
 src/sims/m6809.src/m6809.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index d5fdedd..d0dcf1c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -925,14 +925,14 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  a= rom->read(ea & 0xffff)*256 + rom->read((ea+1) & 0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -1133,7 +1133,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1) & 0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1220,7 +1220,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1) & 0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1261,7 +1261,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1303,7 +1303,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1348,7 +1348,7 @@ cl_m6809::inst_10(t_mem code)
       {
 	u16_t u= fetch()*256 + fetch();
 	i16_t i= u;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	tick(2);
 	break;
       }
@@ -1361,7 +1361,7 @@ cl_m6809::inst_10(t_mem code)
 	rom->write(--reg.S, (PC>>8)&0xff);
 	tick(2);
 	vc.wr+= 2;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	break;
       }
     case 0x08: // --
@@ -1542,7 +1542,7 @@ cl_m6809::inst_branch(t_mem code, bool l)
     }
   if (t)
     {
-      PC= PC + i;
+      PC= (PC + i) & 0xffff;
       tick(1);
     }
       
@@ -2247,7 +2247,7 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2346,7 +2346,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
-- 
2.43.0


From 309587c479d4d5792079775028eb8159c8114b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 092/142] fix: i8048: ADDC A,@Ri was not implemented

---
 src/sims/i8048.src/i8020cl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..e669352 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -231,6 +231,8 @@ protected:
   int ADDR5(MP) { return add(R[5]->read(), false); }
   int ADDR6(MP) { return add(R[6]->read(), false); }
   int ADDR7(MP) { return add(R[7]->read(), false); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int ADCR0(MP) { return add(R[0]->read(), true); }
   int ADCR1(MP) { return add(R[1]->read(), true); }
   int ADCR2(MP) { return add(R[2]->read(), true); }
-- 
2.43.0


From 3f75e2635836c634933018d467e81856469e193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 093/142] fix: i8048: DJNZ used R7 for every register and
 jumped even when it became zero

---
 src/sims/i8048.src/branch.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..41d5995 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -163,13 +163,13 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
+  u8_t r= code&7;
   u8_t a= fetch();
   R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
+  if (R[r]->R() != 0)
     {
       PC&= 0xf00;
-      PC+= a;
+      PC|= a;
     }
   return resGO;
 }
-- 
2.43.0


From 2817d6459db67e4968755c2185f4b521e2b18bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 094/142] fix: i8048: ORLD and ANLD always addressed port 6 of
 the expander

---
 src/sims/i8048.src/i8020cl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index e669352..d6b3804 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -281,14 +281,14 @@ protected:
   int RR(MP);
   int RL(MP);
   int RLC(MP);
-  int ORLDP4A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP5A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP6A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP7A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ANLDP4A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP5A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP6A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP7A(MP) { RDWR; return anld(4+(code>>6), &cA); }
+  int ORLDP4A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP5A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP6A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP7A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ANLDP4A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP5A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP6A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP7A(MP) { RDWR; return anld(4+(code&3), &cA); }
   int CLRC(MP) { cF.W(psw & ~flagC); return resGO; }
   int CPLC(MP) { cF.W(psw ^ flagC); return resGO; }
   int XRLIR0(MP) { RD; return xrl(iram_ir(0)); }
-- 
2.43.0


From aca10a6c40ec74bf9e92856fb629a13fa72f4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 095/142] fix: i8048: A11 is held 0 by jumps and calls of an
 interrupt service routine

---
 src/sims/i8048.src/branch.cc | 4 ++--
 src/sims/i8048.src/i8048.cc  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 41d5995..eca5cb5 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -34,7 +34,7 @@ cl_i8020::jmp(MP)
   u16_t a;
   a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   PC= a;
   return resGO;
 }
@@ -44,7 +44,7 @@ CL2::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(false);
   PC= a;
   return resGO;
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..4d1c7c1 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -266,7 +266,7 @@ cl_i8048::call(MP)
 {
   u16_t a= (code&0xe0)<<3;
   a+= fetch();
-  if (A11) a|= 0x800;
+  if (A11 && !in_isr) a|= 0x800;
   push(true);
   PC= a;
   return resGO;
-- 
2.43.0


From 519b63fc4a81781002910da2975310928b5582a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 096/142] fix: i8048: writing the port expander cleared the
 upper half of P2

---
 src/sims/i8048.src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From f578f39fef8a0bf973fcbc918699e667295fea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 097/142] fix: i8048: length of ANL BUS and ENT0 CLK in the
 disassembler table

---
 src/sims/i8048.src/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..19cfd9d 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -168,7 +168,7 @@ DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
-- 
2.43.0


From d4ec85611bcf417226a3ac36172e4b4cb5b2e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 098/142] fix: division by zero in an expression killed the
 simulator

---
 src/core/cmd.src/cmdpars.y | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..40bbf05 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,7 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+static long divide(long a, long b, bool modulo);
 %}
 /*%expect 6*/
 
@@ -277,8 +278,8 @@ type_name
 multiplicative_expr
 : cast_expr { $$= $1; }
 | multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_SLASH cast_expr { $$= divide($1, $3, false); }
+| multiplicative_expr PTOK_PERCENT cast_expr { $$= divide($1, $3, true); }
 ;
 
 additive_expr
@@ -354,10 +355,12 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1.memory->write($1.address, org /= $3);
+	      if ($3) $1.memory->write($1.address, org= divide(org, $3, false));
+	      else yyerror("Divide by zero");
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1.memory->write($1.address, org %= $3);
+	      if ($3) $1.memory->write($1.address, org= divide(org, $3, true));
+	      else yyerror("Divide by zero");
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1.memory->write($1.address, org += $3);
@@ -404,10 +407,12 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1->write(org /= $3);
+	      if ($3) $1->write(org= divide(org, $3, false));
+	      else yyerror("Divide by zero");
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1->write(org %= $3);
+	      if ($3) $1->write(org= divide(org, $3, true));
+	      else yyerror("Divide by zero");
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1->write(org += $3);
@@ -495,6 +500,19 @@ bit:
 
 %%
 
+static long
+divide(long a, long b, bool modulo)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  if (b == -1) // the quotient of the smallest number does not fit
+    return modulo?0:(long)(0UL-(unsigned long)a);
+  return modulo?(a % b):(a / b);
+}
+
 static void
 yyerror (const char *msg)
 {
-- 
2.43.0


From 920241c3972eb2c99ccf99a0fa3409fa910d8cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 099/142] fix: assignment to bits in an expression stores the
 value in the specified bits

---
 src/core/cmd.src/cmdpars.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 40bbf05..80f2c77 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -390,9 +390,10 @@ assignment_expr
 	{
 		t_mem mask = 0;
 		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
+		t_mem m= mask;
+		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 << $1.bitnr_low) & mask);
 		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		$$= ($1.memory->read($1.mem_address) & m) >> $1.bitnr_low;
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-- 
2.43.0


From 85799971ee4c8144379469fcd57f1b7877afbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 100/142] fix: variable that names bits of a cell is evaluated
 to those bits

---
 src/core/cmd.src/cmdlex.l | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/cmd.src/cmdlex.l b/src/core/cmd.src/cmdlex.l
index b9835bf..4355e29 100644
--- a/src/core/cmd.src/cmdlex.l
+++ b/src/core/cmd.src/cmdlex.l
@@ -206,6 +206,19 @@ uc_yy_check_id(char *token)
       bool found;
       if ((found= uc->symbol2address(yytext, &mem, &addr)))
 	  {
+	      t_index vi;
+	      class cl_cvar *v= 0;
+	      if (uc->vars->by_name.search(yytext, vi))
+		v= uc->vars->by_name.at(vi);
+	      if (v && v->bitnr_low >= 0)
+		{
+		  yylval.bit.memory= mem;
+		  yylval.bit.mem_address= addr;
+		  yylval.bit.bit_address= -1;
+		  yylval.bit.bitnr_high= v->bitnr_high;
+		  yylval.bit.bitnr_low= v->bitnr_low;
+		  return PTOK_BITS;
+		}
 	      yylval.memory.memory= mem;
 	      yylval.memory.address= addr;
 	      return PTOK_MEMORY;
-- 
2.43.0


From b4ba8e6464b55e823322431b38d266d99e0fbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 101/142] fix: s51: undefined opcode jumped to an unrelated
 address

---
 src/sims/s51.src/uc51.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..05e9fdb 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1705,7 +1705,7 @@ cl_51core::do_inst(void)
     {
       interrupt->was_reti= false;
       pre_inst();
-      PCsave= PC;
+      instPC= PCsave= PC;
       result= exec_inst();
       post_inst();
     }
-- 
2.43.0


From 3c2198d3609316cd16891c1d48f6a29d572c74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 102/142] fix: s51: timers and serial port stopped in idle mode

---
 src/sims/s51.src/uc51.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 05e9fdb..8b51e2f 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1698,10 +1698,11 @@ int
 cl_51core::do_inst(void)
 {
   t_addr PCsave= PC;
+  bool running= (state == stGO);
   result= resGO;
 
   save_hist();
-  if (state == stGO)
+  if (running)
     {
       interrupt->was_reti= false;
       pre_inst();
@@ -1711,11 +1712,14 @@ cl_51core::do_inst(void)
     }
   else
     {
-      // tick hw in idle state
+      // peripherals are running in idle state
+      inst_ticks= 0;
       tick(1);
+      if (state == stIDLE)
+	post_inst();
     }
 
-  if ((result == resGO) && (PC == PCsave) && stop_selfjump)
+  if ((result == resGO) && running && (PC == PCsave) && stop_selfjump)
     {
       result= resSELFJUMP;
       return result;
-- 
2.43.0


From e14a35ae5d0c857d60965d3ca45d2402f4a59c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 103/142] fix: s51: interrupt that ends idle mode was served
 one instruction late

---
 src/sims/s51.src/uc51.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 8b51e2f..edd0cf6 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1829,13 +1829,6 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
-	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
-	    }
 	  is->clear();
 	  sim->app->get_commander()->
 	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-- 
2.43.0


From 58ca831f3b1091e27ba2004d868d9ef69775dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 104/142] fix: s51: low priority interrupt was served before a
 simultaneous high priority one

---
 src/sims/s51.src/uc51.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index edd0cf6..d91f0b9 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1818,6 +1818,9 @@ cl_51core::do_interrupt(void)
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *req= NULL;
+  int req_pr= -1;
+  // request of the highest priority, polling order decides among equals
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1829,14 +1832,22 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
+	  if (pr > req_pr)
+	    {
+	      req= is;
+	      req_pr= pr;
+	    }
 	}
     }
+  if (req)
+    {
+      req->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(req), PC);
+      IL= new it_level(req_pr, req->addr, PC, req);
+      return(accept_it(IL));
+    }
   return(resGO);
 }
 
-- 
2.43.0


From f5b7d0099ce323a4ccaa25df5ab227b424c25a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 105/142] fix: s51: no interrupt is accepted right after a
 write to IP

---
 src/sims/s51.src/interrupt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..97293ff 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -54,6 +54,7 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
@@ -97,7 +98,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE or IP register
     was_reti= true;
 }
 
-- 
2.43.0


From 3646b8ce1960663f71681c978360c10a3afeab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 106/142] fix: s51: counters 0 and 1 counted rising edges
 instead of falling ones

---
 src/sims/s51.src/timer0.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..873df61 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -395,8 +395,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From 3c19e275059e489a2e73711909a0f6d81dc178b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 107/142] fix: s51: pulses of a gated off counter were counted
 when the gate opened

---
 src/sims/s51.src/timer0.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 873df61..e0dc5ca 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -213,6 +213,7 @@ cl_timer0::tick(int cycles)
     case 2: do_mode2(cycles); break;
     case 3: do_mode3(cycles); break;
     }
+  T_edge= 0; // edges are not counted later if counter is gated off now
   return(resGO);
 }
 
-- 
2.43.0


From 52d13500c4e57681d46c6cd650953d15021cbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 108/142] fix: s51: counter 2 counted machine cycles instead of
 pulses in capture and reload modes

---
 src/sims/s51.src/timer2.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..3ed36cd 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -224,10 +224,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +256,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From 796d9722ce64b498f43cbad2e57d7180ad61de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 109/142] fix: s51: T2EX edge before EXEN2 was set caused
 capture or reload later

---
 src/sims/s51.src/timer2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 3ed36cd..d6f3ab7 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -164,6 +164,7 @@ cl_timer2::tick(int cycles)
       break;
     default: break;
     }
+  T_edge= t2ex_edge= 0; // events that are not used now are lost
   
   return(resGO);
 }
-- 
2.43.0


From 78eeacdcc5c446ced8a3ca0ff322f346d63be734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 110/142] fix: s51: up/down timer 2 toggled P1.6 instead of
 EXF2

---
 src/sims/s51.src/timer2.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index d6f3ab7..4d12343 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -317,13 +317,8 @@ cl_timer2::do_t2_down(int cycles)
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
-- 
2.43.0


From fd60792569fcdfcd383a9ac9d126d74200397bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 111/142] fix: s51: no underflow of down counting timer 2 when
 RCAP2 is 0

---
 src/sims/s51.src/timer2.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 4d12343..cec9fe5 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -303,12 +303,14 @@ cl_timer2::do_t2_down(int cycles)
       while (cycles--)
 	{
 	  t_mem l, h;
+	  u16_t before= cell_th->get()*256 + cell_tl->get();
+	  u16_t bottom= cell_rcap2h->get()*256 + cell_rcap2l->get();
 	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
 	    h= cell_th->set(cell_th->get() - 1);
 	  else
 	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
-	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
+	  if ((before == bottom) ||
+	      ((u16_t)(h*256+l) < bottom))
 	    {
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
-- 
2.43.0


From ef012c5c87f8e965558601f034a6fe29f4817e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 112/142] fix: s51: writing T2CON switched off the up/down mode
 of timer 2

---
 src/sims/s51.src/timer2.cc  | 50 ++++++++++++++++++++-----------------
 src/sims/s51.src/timer2cl.h |  1 +
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index cec9fe5..3071ada 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,10 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  mode= T2MODE_RELOAD;
+  RCLK= TCLK= CP_RL2= EXEN2= 0;
+  bit_dcen= bit_t2oe= false;
+  T_edge= t2ex_edge= 0;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
@@ -97,8 +101,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -108,33 +110,14 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
-      if (!(RCLK || TCLK) &&
-	  !CP_RL2)
-	mode= T2MODE_RELOAD;
-      else if (!(RCLK || TCLK) &&
-	       CP_RL2)
-	mode= T2MODE_CAPTURE;
-      else if (RCLK || TCLK)
-	mode= T2MODE_BAUDRATE;
-      else
-	mode= T2MODE_OFF;
+      set_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      set_mode();
     }
   if ((mode != oldmode) ||
       (TR && !oldtr) ||
@@ -142,6 +125,27 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
     T_edge= t2ex_edge= 0;
 }
 
+/* mode depends on both T2CON and T2MOD */
+
+void
+cl_timer2::set_mode(void)
+{
+  if (RCLK || TCLK)
+    mode= T2MODE_BAUDRATE;
+  else if (CP_RL2)
+    mode= T2MODE_CAPTURE;
+  else if ((features & t2_down) &&
+	   bit_dcen)
+    mode= T2MODE_DOWN;
+  else
+    mode= T2MODE_RELOAD;
+  if (exf2it)
+    exf2it->set_active_status(mode != T2MODE_DOWN);
+  if ((features & t2_clock_out) &&
+      bit_t2oe)
+    mode= T2MODE_CLKOUT;
+}
+
 int
 cl_timer2::tick(int cycles)
 { 
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..f2d5d91 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -76,6 +76,7 @@ public:
   //virtual void mem_cell_changed(class cl_mem *mem, t_addr addr);
 
   virtual int  tick(int cycles);
+  virtual void set_mode(void);
   virtual int  do_t2_baud(int cycles);
   virtual void do_t2_capture(int cycles);
   virtual void do_t2_reload(int cycles);
-- 
2.43.0


From 133aa7a85f55bd9024b036e048e1c317e6ef7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 113/142] fix: s51: timers stopped while an interrupt is
 accepted

---
 src/sims/s51.src/uc51.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index d91f0b9..294d4e4 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1870,8 +1870,10 @@ cl_51core::accept_it(class it_level *il)
   state= stGO;
   sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
   it_levels->push(il);
+  inst_ticks= 0;
   tick(1);
   int res= inst_lcall(0, il->addr, true);
+  tick_hw(inst_ticks);
   if (res != resGO)
     return(res);
   else
-- 
2.43.0


From 483bc692fc112b6f86d836f467fb996ef3957002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 114/142] fix: s51: a change of a port was signalled twice,
 counters counted edges twice

---
 src/sims/s51.src/port.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..b5e7204 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -164,8 +164,7 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
       if ((port_pins & nv) != cfg->get(port_value))
 	cfg->write(port_value, port_pins & nv);
     }
-  
-  if (bas->is_owned(cell, &ba))
+  else if (bas->is_owned(cell, &ba))
     {
       int bi= ba - addr_p;
       int m= 1 << bi;
@@ -177,8 +176,12 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
       if ((port_pins & nv) != cfg->get(port_value))
 	cfg->write(port_value, port_pins & nv);
     }
-
-  conf(cell, val);
+  else
+    {
+      // the latch is not written
+      conf(cell, val);
+      return;
+    }
   
   ep.id= id;
   ep.addr= addr_p;
-- 
2.43.0


From 69edf7128e01f25cc795d70a74127a155516867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 115/142] fix: stm8: length of LDF, LDW and ADDW in the
 disassembler tables

---
 src/sims/stm8.src/glob.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index 2e39b50..960af5a 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -182,7 +182,6 @@ struct dis_entry disass_stm8[]= {
   { 0x00e6, 0x00ff, ' ', 2, "ld A,(%1,X)" },
   { 0x00f6, 0x00ff, ' ', 1, "ld A,(X)" },
   { 0x006b, 0x00ff, ' ', 2, "ld (%1,SP),A" },
-  { 0x00a7, 0x00ff, ' ', 2, "ld %b,A" },
   { 0x00b7, 0x00ff, ' ', 2, "ld %d,A" },
   { 0x00c7, 0x00ff, ' ', 3, "ld %x,A" },
   { 0x00d7, 0x00ff, ' ', 3, "ld (%2,X),A" },
@@ -358,7 +357,6 @@ struct dis_entry disass_stm8_72[]= {
   { 0x00bb, 0x00ff, ' ', 3, "addw X,%x" },
   { 0x00b9, 0x00ff, ' ', 3, "addw Y,%x" },
   { 0x00a9, 0x00ff, ' ', 3, "addw Y,%w" },
-  { 0x00f9, 0x00ff, ' ', 3, "addw Y,%d" },
   { 0x00fb, 0x00ff, ' ', 2, "addw X,(%1,SP)" },
   { 0x00f9, 0x00ff, ' ', 2, "addw Y,(%1,SP)" },
   { 0x00c4, 0x00ff, ' ', 3, "and A,[%2.w]" },
@@ -691,10 +689,10 @@ struct dis_entry disass_stm8_91[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],Y),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],Y),A" }, // 91
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],Y)" },
-  { 0x00ce, 0x00ff, ' ', 3, "ldw Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ldw Y,([%1.w],Y)" },
-  { 0x00cf, 0x00ff, ' ', 3, "ldw [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ldw ([%1.w],Y),X" },
+  { 0x00ce, 0x00ff, ' ', 2, "ldw Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ldw Y,([%1.w],Y)" },
+  { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ldw ([%1.w],Y),X" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1.w],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x0069, 0x00ff, ' ', 2, "rlc ([%1.w],Y)" },
@@ -746,7 +744,8 @@ struct dis_entry disass_stm8_92[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],X),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],X),A" },
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],X)" },
-  { 0x00bc, 0x00ff, ' ', 2, "ldf A,[%1.e]" },
+  { 0x00bc, 0x00ff, ' ', 3, "ldf A,[%2.e]" },
+  { 0x00bd, 0x00ff, ' ', 3, "ldf [%2.e],A" },
   { 0x00ce, 0x00ff, ' ', 2, "ldw X,[%1.w]" },
   { 0x00de, 0x00ff, ' ', 2, "ldw X,([%1.w],X)" },
   { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],X" },
-- 
2.43.0


From 77f3d2d767fec2b1c811f47f1d73b64d08c52dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 116/142] fix: st7: length of LD Y, CP X and indirect CALL in
 the disassembler tables

---
 src/sims/st7.src/glob.cc | 116 +++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 58 deletions(-)

diff --git a/src/sims/st7.src/glob.cc b/src/sims/st7.src/glob.cc
index 4571a78..fae3dab 100644
--- a/src/sims/st7.src/glob.cc
+++ b/src/sims/st7.src/glob.cc
@@ -122,19 +122,19 @@ struct dis_entry disass_st7[]= {
   { 0x0006, 0x00ff, ' ', 3, "btjt %d,#3,%p" },
   { 0x0008, 0x00ff, ' ', 3, "btjt %d,#4,%p" },
   { 0x000a, 0x00ff, ' ', 3, "btjt %d,#5,%p" },
-  { 0x000c, 0x00ff, ' ', 3, "btjt %d,#6,%p" },
-  { 0x000e, 0x00ff, ' ', 3, "btjt %d,#7,%p" },
-
-  { 0x00bd, 0x00ff, ' ', 2, "call %d", true },
-  { 0x00cd, 0x00ff, ' ', 3, "call %x", true },
-  { 0x00dd, 0x00ff, ' ', 3, "call (%2,X)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call (%1,X)", true },
-  { 0x00fd, 0x00ff, ' ', 1, "call (X)", true },
-//  { 0x008d, 0x00ff, ' ', 4, "callf %e" },
-  { 0x00ad, 0x00ff, ' ', 2, "callr %p", true },
-
-//  { 0x008c, 0x00ff, ' ', 1, "ccf" },
-
+  { 0x000c, 0x00ff, ' ', 3, "btjt %d,#6,%p" },
+  { 0x000e, 0x00ff, ' ', 3, "btjt %d,#7,%p" },
+
+  { 0x00bd, 0x00ff, ' ', 2, "call %d", true },
+  { 0x00cd, 0x00ff, ' ', 3, "call %x", true },
+  { 0x00dd, 0x00ff, ' ', 3, "call (%2,X)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call (%1,X)", true },
+  { 0x00fd, 0x00ff, ' ', 1, "call (X)", true },
+//  { 0x008d, 0x00ff, ' ', 4, "callf %e" },
+  { 0x00ad, 0x00ff, ' ', 2, "callr %p", true },
+
+//  { 0x008c, 0x00ff, ' ', 1, "ccf" },
+
 //  { 0x000f, 0x00ff, ' ', 2, "clr (%1,SP)" },
   { 0x003f, 0x00ff, ' ', 2, "clr %d" },
   { 0x004f, 0x00ff, ' ', 1, "clr A" },
@@ -150,7 +150,7 @@ struct dis_entry disass_st7[]= {
   { 0x00e1, 0x00ff, ' ', 2, "cp A,(%1,X)" },
   { 0x00f1, 0x00ff, ' ', 1, "cp A,(X)" },
 //  { 0x0013, 0x00ff, ' ', 2, "cpw X,(%1,SP)" },
-  { 0x00a3, 0x00ff, ' ', 3, "cp X,%w" },
+  { 0x00a3, 0x00ff, ' ', 2, "cp X,%b" },
   { 0x00b3, 0x00ff, ' ', 2, "cp X,%d" },
   { 0x00c3, 0x00ff, ' ', 3, "cp X,%x" },
   { 0x00d3, 0x00ff, ' ', 3, "cp X,(%2,X)" },
@@ -360,13 +360,13 @@ struct dis_entry disass_st7[]= {
   { 0x003d, 0x00ff, ' ', 2, "tnz %d" },
   { 0x004d, 0x00ff, ' ', 1, "tnz A" },
   { 0x006d, 0x00ff, ' ', 2, "tnz (%1,X)" },
-  { 0x007d, 0x00ff, ' ', 1, "tnz (X)" },
-  { 0x005d, 0x00ff, ' ', 1, "tnz X" },
-
-  { 0x0083, 0x00ff, ' ', 1, "trap", true },
-  { 0x008f, 0x00ff, ' ', 1, "wfi" },
-
-//  { 0x0018, 0x00ff, ' ', 2, "xor A,(%1,SP)" },
+  { 0x007d, 0x00ff, ' ', 1, "tnz (X)" },
+  { 0x005d, 0x00ff, ' ', 1, "tnz X" },
+
+  { 0x0083, 0x00ff, ' ', 1, "trap", true },
+  { 0x008f, 0x00ff, ' ', 1, "wfi" },
+
+//  { 0x0018, 0x00ff, ' ', 2, "xor A,(%1,SP)" },
   { 0x00a8, 0x00ff, ' ', 2, "xor A,%b" },
   { 0x00b8, 0x00ff, ' ', 2, "xor A,%d" },
   { 0x00c8, 0x00ff, ' ', 3, "xor A,%x" },
@@ -407,15 +407,15 @@ struct dis_entry disass_st7_90[]= {
 //  { 0x0016, 0x00ff, ' ', 3, "bcpl %d,#3" },
 //  { 0x0018, 0x00ff, ' ', 3, "bcpl %d,#4" },
 //  { 0x001a, 0x00ff, ' ', 3, "bcpl %d,#5" },
-//  { 0x001c, 0x00ff, ' ', 3, "bcpl %d,#6" },
-//  { 0x001e, 0x00ff, ' ', 3, "bcpl %d,#7" },
-
-  { 0x00dd, 0x00ff, ' ', 3, "call (%2,Y)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call (%1,Y)", true },
-  { 0x00fd, 0x00ff, ' ', 1, "call (Y)", true },
-
-//  { 0x004f, 0x00ff, ' ', 3, "clr (%2,Y)" },
-  { 0x006f, 0x00ff, ' ', 2, "clr (%1,Y)" },
+//  { 0x001c, 0x00ff, ' ', 3, "bcpl %d,#6" },
+//  { 0x001e, 0x00ff, ' ', 3, "bcpl %d,#7" },
+
+  { 0x00dd, 0x00ff, ' ', 3, "call (%2,Y)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call (%1,Y)", true },
+  { 0x00fd, 0x00ff, ' ', 1, "call (Y)", true },
+
+//  { 0x004f, 0x00ff, ' ', 3, "clr (%2,Y)" },
+  { 0x006f, 0x00ff, ' ', 2, "clr (%1,Y)" },
   { 0x007f, 0x00ff, ' ', 1, "clr (Y)" },
   { 0x005f, 0x00ff, ' ', 1, "clr Y" },
 
@@ -554,14 +554,14 @@ struct dis_entry disass_st7_91[]= {
   { 0x00db, 0x00ff, ' ', 2, "add A,([%1.w],Y)" },
   { 0x00eb, 0x00ff, ' ', 2, "add A,([%1],Y)" },
   { 0x00d4, 0x00ff, ' ', 2, "and A,([%1.w],Y)" },
-  { 0x00e4, 0x00ff, ' ', 2, "and A,([%1],Y)" },
-  { 0x00d5, 0x00ff, ' ', 2, "bcp A,([%1.w],Y)" },
-  { 0x00e5, 0x00ff, ' ', 2, "bcp A,([%1],Y)" },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],Y)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],Y)", true },
-  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],Y)" },
-  { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],Y)" },
-  { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],Y)" },
+  { 0x00e4, 0x00ff, ' ', 2, "and A,([%1],Y)" },
+  { 0x00d5, 0x00ff, ' ', 2, "bcp A,([%1.w],Y)" },
+  { 0x00e5, 0x00ff, ' ', 2, "bcp A,([%1],Y)" },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],Y)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],Y)", true },
+  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],Y)" },
+  { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],Y)" },
+  { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],Y)" },
   { 0x00b3, 0x00ff, ' ', 2, "cp Y,[%1]" },
   { 0x00c3, 0x00ff, ' ', 2, "cp Y,[%1.w]" },
   { 0x00d3, 0x00ff, ' ', 2, "cp Y,([%1.w],Y)" },
@@ -577,14 +577,14 @@ struct dis_entry disass_st7_91[]= {
   { 0x00e7, 0x00ff, ' ', 2, "ld ([%1],Y),A" },
 //  { 0x00a7, 0x00ff, ' ', 2, "ldf ([%2.e],Y),A" },
 //  { 0x00af, 0x00ff, ' ', 2, "ldf A,([%2.e],Y)" },
-  { 0x00be, 0x00ff, ' ', 3, "ld Y,[%1]" },
-  { 0x00ce, 0x00ff, ' ', 3, "ld Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ld Y,([%1.w],Y)" },
-  { 0x00ee, 0x00ff, ' ', 3, "ld Y,([%1],Y)" },
-  { 0x00bf, 0x00ff, ' ', 3, "ld [%1],Y" },
-  { 0x00cf, 0x00ff, ' ', 3, "ld [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ld ([%1.w],Y),Y" },
-  { 0x00ef, 0x00ff, ' ', 3, "ld ([%1],Y),Y" },
+  { 0x00be, 0x00ff, ' ', 2, "ld Y,[%1]" },
+  { 0x00ce, 0x00ff, ' ', 2, "ld Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ld Y,([%1.w],Y)" },
+  { 0x00ee, 0x00ff, ' ', 2, "ld Y,([%1],Y)" },
+  { 0x00bf, 0x00ff, ' ', 2, "ld [%1],Y" },
+  { 0x00cf, 0x00ff, ' ', 2, "ld [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ld ([%1.w],Y),Y" },
+  { 0x00ef, 0x00ff, ' ', 2, "ld ([%1],Y),Y" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x00ea, 0x00ff, ' ', 2, "or A,([%1],Y)" },
@@ -657,18 +657,18 @@ struct dis_entry disass_st7_92[]= {
   { 0x0006, 0x00ff, ' ', 3, "btjt [%1],#3,%p" },
   { 0x0008, 0x00ff, ' ', 3, "btjt [%1],#4,%p" },
   { 0x000a, 0x00ff, ' ', 3, "btjt [%1],#5,%p" },
-  { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
-  { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
-
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1]", true },
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1],X)", true },
-  { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
-//  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
-  { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
-  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],X)" },
-  { 0x00b1, 0x00ff, ' ', 2, "cp A,[%1]" },
+  { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
+  { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
+
+  { 0x00bd, 0x00ff, ' ', 2, "call [%1]", true },
+  { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],X)", true },
+  { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
+//  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
+  { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
+  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],X)" },
+  { 0x00b1, 0x00ff, ' ', 2, "cp A,[%1]" },
   { 0x00c1, 0x00ff, ' ', 2, "cp A,[%1.w]" },
   { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],X)" },
   { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],X)" },
-- 
2.43.0


From 77887309345032bfec409dbc28c33148e62e7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 117/142] fix: m68hc08: length of DBNZ indexed and MOV opr,X+
 in the disassembler tables

---
 src/sims/m68hc08.src/glob.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m68hc08.src/glob.cc b/src/sims/m68hc08.src/glob.cc
index 0675b2c..15b9299 100644
--- a/src/sims/m68hc08.src/glob.cc
+++ b/src/sims/m68hc08.src/glob.cc
@@ -143,7 +143,7 @@ struct dis_entry disass_hc08[]= {
   { 0x005b, 0x00ff, 'R', 2, "dbnzx %p" },
   { 0x005c, 0x00ff, ' ', 1, "incx" },
   { 0x005d, 0x00ff, ' ', 1, "tstx" },
-  { 0x005e, 0x00ff, ' ', 3, "mov %d,x+" },
+  { 0x005e, 0x00ff, ' ', 2, "mov %d,x+" },
   { 0x005f, 0x00ff, ' ', 1, "clrx" },
 
   { 0x0060, 0x00ff, ' ', 2, "neg %1,x" },
@@ -157,7 +157,7 @@ struct dis_entry disass_hc08[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,x" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,x" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,x" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,x,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,x,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,x" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,x" },
   { 0x006e, 0x00ff, ' ', 3, "mov %b,%d" },
@@ -343,7 +343,7 @@ struct dis_entry disass_hc08_9e[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,sp" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,sp" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,sp" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,sp,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,sp,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,sp" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,sp" },
   { 0x006f, 0x00ff, ' ', 2, "clr %1,sp" },
-- 
2.43.0


From d4bf878321692a66aca88ed056aa0d2c9c2b2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 118/142] fix: z80: length of ADD HL,DE, 16 bit loads and LD
 (FF00+C) in the disassembler tables

---
 src/sims/z80.src/glob.cc      | 18 +++++++++---------
 src/sims/z80.src/glob_gb80.cc |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 35a8d3f..fd15fd6 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -68,7 +68,7 @@ struct dis_entry disass_z80[]= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -380,7 +380,7 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-  { 0x0043, 0x00ff, ' ', 1, "LD (nnnn),BC" },
+  { 0x0043, 0x00ff, ' ', 3, "LD (nnnn),BC" },
   { 0x0044, 0x00ff, ' ', 1, "NEG" },
   { 0x0045, 0x00ff, ' ', 1, "RETN" },
   { 0x0046, 0x00ff, ' ', 1, "IM 0" },
@@ -388,39 +388,39 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0048, 0x00ff, ' ', 1, "IN C,(C)" },
   { 0x0049, 0x00ff, ' ', 1, "OUT (C),C" },
   { 0x004A, 0x00ff, ' ', 1, "ADC HL,BC" },
-  { 0x004B, 0x00ff, ' ', 1, "LD BC,(nnnn)" },
+  { 0x004B, 0x00ff, ' ', 3, "LD BC,(nnnn)" },
   { 0x004D, 0x00ff, ' ', 1, "RETI" },
   { 0x004F, 0x00ff, ' ', 1, "LD R,A" },
   { 0x0050, 0x00ff, ' ', 1, "IN D,(C)" },
   { 0x0051, 0x00ff, ' ', 1, "OUT (C),D" },
   { 0x0052, 0x00ff, ' ', 1, "SBC HL,DE" },
-  { 0x0053, 0x00ff, ' ', 1, "LD (nnnn),DE" },
+  { 0x0053, 0x00ff, ' ', 3, "LD (nnnn),DE" },
   { 0x0056, 0x00ff, ' ', 1, "IM 1" },
   { 0x0057, 0x00ff, ' ', 1, "LD A,IV" },
   { 0x0058, 0x00ff, ' ', 1, "IN E,(C)" },
   { 0x0059, 0x00ff, ' ', 1, "OUT (C),E" },
   { 0x005A, 0x00ff, ' ', 1, "ADC HL,DE" },
-  { 0x005B, 0x00ff, ' ', 1, "LD DE,(nnnn)" },
+  { 0x005B, 0x00ff, ' ', 3, "LD DE,(nnnn)" },
   { 0x005E, 0x00ff, ' ', 1, "IM 2" },
   { 0x005F, 0x00ff, ' ', 1, "LD A,R" },
   { 0x0060, 0x00ff, ' ', 1, "IN H,(C)" },
   { 0x0061, 0x00ff, ' ', 1, "OUT (C),H" },
   { 0x0062, 0x00ff, ' ', 1, "SBC HL,HL" },
-  { 0x0063, 0x00ff, ' ', 1, "LD (nnnn),HL" },
+  { 0x0063, 0x00ff, ' ', 3, "LD (nnnn),HL" },
   { 0x0067, 0x00ff, ' ', 1, "RRD" },
   { 0x0068, 0x00ff, ' ', 1, "IN L,(C)" },
   { 0x0069, 0x00ff, ' ', 1, "OUT (C),L" },
   { 0x006A, 0x00ff, ' ', 1, "ADC HL,HL" },
-  { 0x006B, 0x00ff, ' ', 1, "LD HL,(nnnn)" },
+  { 0x006B, 0x00ff, ' ', 3, "LD HL,(nnnn)" },
   { 0x006F, 0x00ff, ' ', 1, "RLD" },
   { 0x0070, 0x00ff, ' ', 1, "IN (C)" },
   { 0x0071, 0x00ff, ' ', 1, "OUT (C),0" },
   { 0x0072, 0x00ff, ' ', 1, "SBC HL,SP" },
-  { 0x0073, 0x00ff, ' ', 1, "LD (nnnn),SP" },
+  { 0x0073, 0x00ff, ' ', 3, "LD (nnnn),SP" },
   { 0x0078, 0x00ff, ' ', 1, "IN A,(C)" },
   { 0x0079, 0x00ff, ' ', 1, "OUT (C),A" },
   { 0x007A, 0x00ff, ' ', 1, "ADC HL,SP" },
-  { 0x007B, 0x00ff, ' ', 1, "LD SP,(nnnn)" },
+  { 0x007B, 0x00ff, ' ', 3, "LD SP,(nnnn)" },
   { 0x00A0, 0x00ff, ' ', 1, "LDI" },
   { 0x00A1, 0x00ff, ' ', 1, "CPI" },
   { 0x00A2, 0x00ff, ' ', 1, "INI" },
diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..c161921 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -70,7 +70,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
@@ -313,7 +313,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00e0, 0x00ff, ' ', 2, "LDH (0xFF00+%b),A" },  // unique to GB80
   { 0x00e1, 0x00ff, ' ', 1, "POP HL" },
-  { 0x00e2, 0x00ff, 'A', 2, "LD (0xFF00+C),A" },  // unique to GB80
+  { 0x00e2, 0x00ff, 'A', 1, "LD (0xFF00+C),A" },  // unique to GB80
   { 0x00e3, 0x00ff, ' ', 1, "Illegal Op" },
   { 0x00e4, 0x00ff, 'l', 1, "Illegal Op" },
   { 0x00e5, 0x00ff, ' ', 1, "PUSH HL" },
@@ -331,7 +331,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00f0, 0x00ff, ' ', 2, "LDH A,(0xFF00+%b)" },  // unique to GB80
   { 0x00f1, 0x00ff, ' ', 1, "POP AF" },
-  { 0x00f2, 0x00ff, ' ', 2, "LD A,(0xFF00+C)" },  // unique to GB80
+  { 0x00f2, 0x00ff, ' ', 1, "LD A,(0xFF00+C)" },  // unique to GB80
   { 0x00f3, 0x00ff, ' ', 1, "DI" },
   { 0x00f4, 0x00ff, 'l', 3, "Illegal Op" },
   { 0x00f5, 0x00ff, ' ', 1, "PUSH AF" },
-- 
2.43.0


From 8540ec9d87eec30d83c0b3849f22e70e0f5e238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 119/142] fix: i8048, i8085, s51: subroutine calls were not
 known to step over (next), length of 8085 extensions

---
 src/sims/i8048.src/decode.h  | 16 ++++++++--------
 src/sims/i8085.src/glob.cc   | 28 ++++++++++++++--------------
 src/sims/i8085.src/i8080.cc  | 14 ++++++++++++++
 src/sims/i8085.src/i8080cl.h |  2 ++
 src/sims/s51.src/glob.cc     |  2 +-
 5 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 19cfd9d..7e1cb1c 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -23,7 +23,7 @@ DEC( 10, INCIR0 	, "inc @r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 11, INCIR1 	, "inc @r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 12, JB0		, "jb0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 13, ADCI8		, "addc a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, false, 2, (void*)"8421" )
+DEC( 14, CALL0  	, "call 'a11'"	, '_', 2, true, 2, (void*)"8421" )
 DEC( 15, DISI		, "dis i"	, ' ', 1, false, 1, (void*)"842-" )
 DEC( 16, JTF		, "jtf 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 17, INCA   	, "inc a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -57,7 +57,7 @@ DEC( 30, XCHDIR0	, "xchd a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 31, XCHDIR1	, "xchd a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 32, JB1		, "jb1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // 33 undefined
-DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 34, CALL1  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 35, DISTCNTI	, "dis tcnti"	, ' ', 1, false, 1, (void*)"842-" ) //48,41,22
 DEC( 36, JT0		, "jt0 'a8'"	, 'i', 2, false, 2, (void*)"842-" ) //48,41,22
 DEC( 37, CPLA		, "cpl a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -91,7 +91,7 @@ DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
-DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
 DEC( 57, DAA		, "da a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -124,7 +124,7 @@ DEC( 6f, ADDR7		, "add a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
+DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8421" )
 DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
@@ -164,7 +164,7 @@ DEC( 91, MOVXIR1A	, "movx @r1,a"	, ' ', 1, false, 2, (void*)"8---" ) //48
 DEC( 92, JB4		, "jb4 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETR		, "retr"	, '_', 1, false, 2, (void*)"84--" ) //48,41
 DEC( 93, RETI		, "ret i"	, '_', 1, false, 2, (void*)"--2-" ) //22
-DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
@@ -197,7 +197,7 @@ DEC( b0, MOVIR0I8	, "mov @r0,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b1, MOVIR1I8	, "mov @r1,'i8'", ' ', 2, false, 2, (void*)"8421" )
 DEC( b2, JB5		, "jb5 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( b3, JMPPIA		, "jmpp @a"	, '_', 1, false, 2, (void*)"8421" )
-DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( b4, CALL5  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( b5, CPLF1		, "cpl f1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( b6, JF0		, "jf0 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // b7 undefined
@@ -231,7 +231,7 @@ DEC( d0, XRLIR0		, "xrl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d1, XRLIR1		, "xrl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( d2, JB6		, "jb6 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( d3, XRLI8		, "xrl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( d4, CALL6  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( d5, SELRB1		, "sel rb1"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( d6, JNIBF 		, "jnibf 'a8'" 	, 'i', 2, false, 2, (void*)"-4--" ) //41
 DEC( d7, MOVFA		, "mov psw,a"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
@@ -266,7 +266,7 @@ DEC( f0, MOVAIR0	, "mov a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f1, MOVAIR1	, "mov a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( f2, JB7		, "jb7 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 // f3 undefined
-DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
+DEC( f4, CALL7  	, "call 'a11'"	, ' ', 2, true, 2, (void*)"8-2-" ) //48,22
 DEC( f5, SELMB1		, "sel mb1"	, ' ', 1, false, 1, (void*)"8---" ) //48
 DEC( f5, ENFLAGS	, "en flags"	, ' ', 1, false, 1, (void*)"-4--" ) //41
 DEC( f6, JC		, "jc 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..5ed5426 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -98,15 +98,15 @@ struct dis_entry disass_common[]=
     { 0xf2, 0xff, ' ', 3, "JP 'a16'" },
     { 0xfa, 0xff, ' ', 3, "JM 'a16'" },
     
-    { 0xcd, 0xff, ' ', 3, "CALL 'a16'" },
-    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'" },
-    { 0xcc, 0xff, ' ', 3, "CZ 'a16'" },
-    { 0xd4, 0xff, ' ', 3, "CNC 'a16'" },
-    { 0xdc, 0xff, ' ', 3, "CC 'a16'" },
-    { 0xe4, 0xff, ' ', 3, "CPO 'a16'" },
-    { 0xec, 0xff, ' ', 3, "CPE 'a16'" },
-    { 0xf4, 0xff, ' ', 3, "CP 'a16'" },
-    { 0xfc, 0xff, ' ', 3, "CM 'a16'" },
+    { 0xcd, 0xff, ' ', 3, "CALL 'a16'", true },
+    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'", true },
+    { 0xcc, 0xff, ' ', 3, "CZ 'a16'", true },
+    { 0xd4, 0xff, ' ', 3, "CNC 'a16'", true },
+    { 0xdc, 0xff, ' ', 3, "CC 'a16'", true },
+    { 0xe4, 0xff, ' ', 3, "CPO 'a16'", true },
+    { 0xec, 0xff, ' ', 3, "CPE 'a16'", true },
+    { 0xf4, 0xff, ' ', 3, "CP 'a16'", true },
+    { 0xfc, 0xff, ' ', 3, "CM 'a16'", true },
     
     { 0xc9, 0xff, ' ', 1, "RET" },
     { 0xc0, 0xff, ' ', 1, "RNZ" },
@@ -118,7 +118,7 @@ struct dis_entry disass_common[]=
     { 0xf0, 0xff, ' ', 1, "RP" },
     { 0xf8, 0xff, ' ', 1, "RM" },
 
-    { 0xc7, 0xc7, ' ', 1, "RST 'rst'" },
+    { 0xc7, 0xc7, ' ', 1, "RST 'rst'", true },
     { 0xe9, 0xff, ' ', 1, "PCHL" },
 
     { 0, 0, 0, 0, 0, 0 }
@@ -135,9 +135,9 @@ struct dis_entry disass_8080[]=
     { 0x38, 0xff, ' ', 1, "*NOP" },
     { 0xd9, 0xff, ' ', 1, "*RET" },
     { 0xcb, 0xff, ' ', 3, "*JMP 'a16'" },
-    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xed, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'" },
+    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xed, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'", true },
     { 0, 0, 0, 0, 0, 0 }
   };
 
@@ -151,7 +151,7 @@ struct dis_entry disass_8085[]=
     { 0x08, 0xff, ' ', 1, "DSUB" },
     { 0xdd, 0xff, ' ', 3, "JNX5 'a16'" },
     { 0xfd, 0xff, ' ', 3, "JX5 'a16'" },
-    { 0xcb, 0xff, ' ', 1, "RSTV" },
+    { 0xcb, 0xff, ' ', 1, "RSTV", true },
     { 0x28, 0xff, ' ', 2, "LDHI 'hli8'" },
     { 0x38, 0xff, ' ', 2, "LDSI 'spi8'" },
     { 0xed, 0xff, ' ', 1, "LHLX 'de16'" },
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 8c05955..3ef7211 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -178,6 +178,20 @@ cl_i8080::dis_tbl(void)
   return(disass_common);
 }
 
+int
+cl_i8080::inst_length(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de?(de->length):1;
+}
+
+bool
+cl_i8080::is_call(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  return de?(de->is_call):false;
+}
+
 struct dis_entry *
 cl_i8080::get_dis_entry(t_addr addr)
 {
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index 5032377..3f0d27e 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -139,6 +139,8 @@ public:
   virtual double def_xtal(void) { return 1000000; }
   virtual int clock_per_cycle(void) { return 1; }
   virtual struct dis_entry *dis_tbl(void);
+  virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual void dis_M(chars *comment);
   virtual void dis_rp8(chars *comment, int rp);
diff --git a/src/sims/s51.src/glob.cc b/src/sims/s51.src/glob.cc
index 25a02a6..9a3307a 100644
--- a/src/sims/s51.src/glob.cc
+++ b/src/sims/s51.src/glob.cc
@@ -54,7 +54,7 @@ struct dis_entry disass_51[]= {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 2, "ACALL %A"},
+  { 0x11, 0xff, 'a', 2, "ACALL %A", true},
   { 0x12, 0xff, 'l', 3, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
-- 
2.43.0


From 7f5b9623d2d2249ec4b37085e16050b7f88419e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 120/142] fix: m6800, m68hc11: subroutine calls were not known
 to step over (next), lengths in the disassembler tables

---
 src/core/motorola.src/g11p0.cc  |  2 +-
 src/core/motorola.src/g11p18.cc | 20 ++++++++++----------
 src/core/motorola.src/g11p1a.cc | 10 +++++-----
 src/core/motorola.src/g11pcd.cc |  6 +++---
 src/core/motorola.src/glob68.cc |  8 ++++----
 src/core/motorola.src/m6800.cc  |  7 +++++++
 src/core/motorola.src/m6800cl.h |  1 +
 7 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/core/motorola.src/g11p0.cc b/src/core/motorola.src/g11p0.cc
index 1f467b2..5b9e1d6 100644
--- a/src/core/motorola.src/g11p0.cc
+++ b/src/core/motorola.src/g11p0.cc
@@ -47,7 +47,7 @@ struct dis_entry disass11p0[]= {
   { 0xa3, 0xff, ' ', 2, "SUB D,%X" },
   { 0xb3, 0xff, ' ', 3, "SUB D,%E" },
   { 0x8f, 0xff, ' ', 1, "XGDX" },
-  { 0x9d, 0xff, 'd', 2, "JSR %d" },
+  { 0x9d, 0xff, 'd', 2, "JSR %d", true },
   { 0xc3, 0xff, ' ', 3, "ADD D,%B" },
   { 0xd3, 0xff, ' ', 2, "ADD D,%D" },
   { 0xe3, 0xff, ' ', 2, "ADD D,%X" },
diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..b14dd61 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -67,17 +67,17 @@ struct dis_entry disass11p18[]= {
   { 0xaa, 0xff, ' ', 3, "ORA A,%x" },
   { 0xab, 0xff, ' ', 3, "ADD A,%x" },
   { 0xac, 0xff, ' ', 3, "CPY %X" },
-  { 0xad, 0xff, '_', 3, "JSR %X" },
+  { 0xad, 0xff, '_', 3, "JSR %X", true },
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
-  { 0xce, 0xff, ' ', 3, "LDY %B" },
+  { 0xce, 0xff, ' ', 4, "LDY %B" },
   { 0xde, 0xff, ' ', 3, "LDY %D" },
-  { 0xde, 0xff, ' ', 3, "LDY %X" },
-  { 0xfe, 0xff, ' ', 3, "LDY %E" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xfe, 0xff, ' ', 4, "LDY %E" },
   { 0xdf, 0xff, ' ', 3, "STY %D" },
-  { 0xdf, 0xff, ' ', 3, "STY %X" },
-  { 0xff, 0xff, ' ', 3, "STY %E" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
+  { 0xff, 0xff, ' ', 4, "STY %E" },
   { 0xe0, 0xff, ' ', 3, "SUB B,%x" },
   { 0xe1, 0xff, ' ', 3, "CMP B,%x" },
   { 0xe2, 0xff, ' ', 3, "SBC B,%x" },
@@ -93,10 +93,10 @@ struct dis_entry disass11p18[]= {
   { 0xec, 0xff, ' ', 3, "LDD %X" },
   { 0xed, 0xff, ' ', 3, "STD %X" },
 
-  { 0x1c, 0xff, ' ', 3, "BSET %x,%b" },
-  { 0x1e, 0xff, 'R', 4, "BRSET %x,%b,%r" },
-  { 0x1d, 0xff, ' ', 3, "BCLR %x,%b" },
-  { 0x1f, 0xff, 'R', 4, "BRCLR %x,%b,%r" },
+  { 0x1c, 0xff, ' ', 4, "BSET %x,%b" },
+  { 0x1e, 0xff, 'R', 5, "BRSET %x,%b,%r" },
+  { 0x1d, 0xff, ' ', 4, "BCLR %x,%b" },
+  { 0x1f, 0xff, 'R', 5, "BRCLR %x,%b,%r" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 96d42c9..48439c9 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -32,14 +32,14 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 // code, mask, branch, len, mnem, iscall, ticks
 struct dis_entry disass11p1a[]= {
 
-  { 0x83, 0xff, ' ', 3, "CPD %B" },  
+  { 0x83, 0xff, ' ', 4, "CPD %B" },  
   { 0x93, 0xff, ' ', 3, "CPD %D" },  
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xb3, 0xff, ' ', 3, "CPD %E" },  
+  { 0xb3, 0xff, ' ', 4, "CPD %E" },  
 
-  { 0xad, 0xff, ' ', 3, "CPY %X" },
-  { 0xee, 0xff, ' ', 2, "LDY %x" },
-  { 0xef, 0xff, ' ', 2, "STY %x" },
+  { 0xac, 0xff, ' ', 3, "CPY %X" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index f28dc1d..3f90194 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -33,9 +33,9 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xad, 0xff, ' ', 3, "CPD %X" },
-  { 0xee, 0xff, ' ', 2, "LDX %x" },
-  { 0xef, 0xff, ' ', 2, "STX %x" },
+  { 0xac, 0xff, ' ', 3, "CPX %X" },
+  { 0xee, 0xff, ' ', 3, "LDX %X" },
+  { 0xef, 0xff, ' ', 3, "STX %X" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 17fed6c..bd2e8fb 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -141,7 +141,7 @@ struct dis_entry disass_m6800[]=
     { 0x8a, 0xff, ' ', 2, "ORA A,%b" },
     { 0x8b, 0xff, ' ', 2, "ADD A,%b" },
     { 0x8c, 0xff, ' ', 3, "CPX %B" },
-    { 0x8d, 0xff, ' ', 2, "BSR %r" },
+    { 0x8d, 0xff, ' ', 2, "BSR %r", true },
     { 0x8e, 0xff, ' ', 3, "LDS %B" },
 
     { 0x90, 0xff, ' ', 2, "SUB A,%d" },
@@ -171,7 +171,7 @@ struct dis_entry disass_m6800[]=
     { 0xaa, 0xff, ' ', 2, "ORA A,%x" },
     { 0xab, 0xff, ' ', 2, "ADD A,%x" },
     { 0xac, 0xff, ' ', 2, "CPX %X" },
-    { 0xad, 0xff, '_', 2, "JSR %X" },
+    { 0xad, 0xff, '_', 2, "JSR %X", true },
     { 0xae, 0xff, ' ', 2, "LDS %X" },
     { 0xaf, 0xff, ' ', 2, "STS %X" },
 
@@ -187,7 +187,7 @@ struct dis_entry disass_m6800[]=
     { 0xba, 0xff, ' ', 3, "ORA A,%e" },
     { 0xbb, 0xff, ' ', 3, "ADD A,%e" },
     { 0xbc, 0xff, ' ', 3, "CPX %E" },
-    { 0xbd, 0xff, 'E', 3, "JSR %e" },
+    { 0xbd, 0xff, 'E', 3, "JSR %e", true },
     { 0xbe, 0xff, ' ', 3, "LDS %E" },
     { 0xbf, 0xff, ' ', 3, "STS %E" },
 
@@ -252,7 +252,7 @@ struct dis_entry disass_m6800[]=
 struct dis_entry disass_m6801[]=
   {
     { 0x21, 0xff, ' ', 2, "BRN %r" },
-    { 0x9d, 0xff, 'd', 2, "JSR %d" },
+    { 0x9d, 0xff, 'd', 2, "JSR %d", true },
     { 0x3c, 0xff, ' ', 1, "PSHX" },
     { 0x38, 0xff, ' ', 1, "PULX" },
 
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 44b3add..5b27ee4 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -459,6 +459,13 @@ cl_m6800::inst_length(t_addr addr)
   return 1;
 }
 
+bool
+cl_m6800::is_call(t_addr addr)
+{
+  struct dis_entry *di= get_dis_entry(addr);
+  return (di && di->mnemonic)?(di->is_call):false;
+}
+
 t_addr
 cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index c899a13..b9494e1 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -191,6 +191,7 @@ public:
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
+  virtual bool is_call(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
   virtual void print_regs(class cl_console_base *con);
-- 
2.43.0


From a95ff959d3369dd57a03e201ecad35a0140605a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 121/142] fix: m6809: length of prefixed instructions, calls
 were not known to step over (next)

---
 src/sims/m6809.src/glob.cc  |  8 ++++----
 src/sims/m6809.src/m6809.cc | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..481973f 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -78,12 +78,12 @@ struct dis_entry disass_m6809[]=
    { 0x2e, 0xff, 'b', 1, "BGT %b"	, 0, 0 },
    { 0x2f, 0xff, 'b', 1, "BLE %b"	, 0, 0 },
 
-   { 0x8d, 0xff, 's', 1, "BSR %b"	, 0, 0 },
-   { 0xbd, 0xff, 's', 1, "JSR %j"	, 0, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 0, 0 },
+   { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
+   { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
-   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 0, 0 },
+   { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
 
    { 0x30, 0xff, ' ', 1, "LEAX %X"	, 0, 0 },
    { 0x31, 0xff, ' ', 1, "LEAY %X"	, 0, 0 },
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index d0dcf1c..990ebde 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -741,14 +741,14 @@ cl_m6809::inst_length(t_addr addr)
     {
       ret= 2;
       code= rom->get(addr+1);
-      ch= code>>4;
-      cl= code&0xf;
+      if (code == 0x3f) return ret;
+      if ((code & 0xf0) == 0x20) return 4; // long branches
       int aml= 1;
       switch (code & 0x30)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -763,7 +763,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -796,13 +796,13 @@ cl_m6809::inst_length(t_addr addr)
       if (ch==1)
 	{
 	  if (cl==6||cl==7) return 3;
-	  if (cl==10||cl==12||cl==13||cl==15) return 2;
+	  if (cl==10||cl==12||cl==14||cl==15) return 2;
 	}
       if (ch==2) return 2;
       if (ch==3)
 	{
 	  if (cl < 4) return indexed_length(addr);
-	  if (cl < 8) return 2;
+	  if (cl < 8 || cl == 12) return 2;
 	}
       if (ch==6) return indexed_length(addr);
       if (ch==7) return 3; // extend
-- 
2.43.0


From 3154942b5cf4f265b91fa7ce4c13c9056eb2ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 122/142] fix: avr: RCALL and ICALL were not known to step over
 (next)

---
 src/sims/avr.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/glob.cc b/src/sims/avr.src/glob.cc
index 94226d5..7bca1e6 100644
--- a/src/sims/avr.src/glob.cc
+++ b/src/sims/avr.src/glob.cc
@@ -87,7 +87,7 @@ struct dis_entry disass_avr[]= {
   { 0x1000, 0xfc00, ' ', 1, "cpse %d,%r" },
   { 0x940a, 0xfe0f, ' ', 1, "dec %d" },
   { 0x2400, 0xfc00, ' ', 1, "eor %d,%r" },
-  { 0x9509, 0xff0f, ' ', 1, "icall" },
+  { 0x9509, 0xff0f, ' ', 1, "icall", true },
   { 0x9409, 0xff0f, ' ', 1, "ijmp" },
   { 0xb000, 0xf800, ' ', 1, "in %d,%p" },
   { 0x9403, 0xfe0f, ' ', 1, "inc %d" },
@@ -116,7 +116,7 @@ struct dis_entry disass_avr[]= {
   { 0xb800, 0xf800, ' ', 1, "out %p,%d" },
   { 0x900f, 0xfe0f, ' ', 1, "pop %d" },
   { 0x920f, 0xfe0f, ' ', 1, "push %d" },
-  { 0xd000, 0xf000, ' ', 1, "rcall %a" },
+  { 0xd000, 0xf000, ' ', 1, "rcall %a", true },
   { 0x9508, 0xff9f, ' ', 1, "ret" },
   { 0x9518, 0xff9f, ' ', 1, "reti" },
   { 0xc000, 0xf000, ' ', 1, "rjmp %a" },
-- 
2.43.0


From 5a9aebd5778ad14f9bbbfe93ba40364f76bebe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 123/142] fix: interrupt sources did not initialise their nmi
 flag

---
 src/core/sim.src/itsrc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/itsrc.cc b/src/core/sim.src/itsrc.cc
index a1e76bf..7ab1fd5 100644
--- a/src/core/sim.src/itsrc.cc
+++ b/src/core/sim.src/itsrc.cc
@@ -70,6 +70,7 @@ cl_it_src::cl_it_src(cl_uc  *Iuc,
   src_value= Isrc_mask;
   addr     = Iaddr;
   clr_bit  = Iclr_bit;
+  nmi      = false;
   indirect = Iindirect;
   if (Iname != NULL)
     set_name(Iname);
-- 
2.43.0


From 83aea1cbf1972401aa55276467c39bc0db54b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 124/142] fix: elapsed time of a counter was not initialised

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index bb34aa7..3cc6592 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
-- 
2.43.0


From 4a9d456e842080ed64438bce63ce208801f4e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 125/142] fix: deleting a counter by number freed the first one

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 3cc6592..27b415b 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3149,7 +3149,7 @@ cl_uc::del_counter(int nr)
 
   if (nr >= counters->count)
     return;
-  if ((t= (class cl_ticker *)(counters->at(0))) != 0)
+  if ((t= (class cl_ticker *)(counters->at(nr))) != 0)
     delete t;
   counters->put_at(nr, 0);
 }
-- 
2.43.0


From 5c117fa5eed4aa5a859dfbcb2db68390b98e484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 126/142] fix: s51: interrupt and timer state was not
 initialised

---
 src/sims/s51.src/interrupt.cc | 1 +
 src/sims/s51.src/timer0.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 97293ff..266fac3 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -44,6 +44,7 @@ cl_interrupt::cl_interrupt(class cl_uc *auc):
   cl_hw(auc, HW_INTERRUPT, 0, "irq")
 {
   was_reti= false;
+  bit_IT0= bit_IT1= bit_INT0= bit_INT1= false;
 }
 
 int
diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index e0dc5ca..318e1cc 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -37,6 +37,7 @@ cl_timer0::cl_timer0(class cl_uc *auc, int aid, const char *aid_string):
   cl_hw(auc, HW_TIMER, aid, aid_string)
 {
   cell_tmod= cell_tcon= 0;
+  mode= GATE= C_T= TR= INT= T_edge= 0;
   if (aid == 0)
     {
       mask_M0  = bmM00;
-- 
2.43.0


From 26c87fd1e71c52ad6bafc13868c2d13ba7828e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 127/142] fix: pblaze: STAR writes the register named by bits
 11..8

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index d1e7d85..342ca8f 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -785,7 +785,7 @@ cl_pblaze::inst_star(uint code, int operands)
 
   if (operands == REG_REG) {
     // getting register from inactive register bank
-    unsigned char reg_code = (code & 0x000f0) >> 4;
+    unsigned char reg_code = (code & 0x00f00) >> 8;
     if (active_regbank == REGISTER_BANK_A)
       reg_code += 0x10;
 
-- 
2.43.0


From 45fddfba449cfad06dbb14f6a1490c54ec44821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 128/142] fix: pblaze: constant of OUTPUTK is in bits 11..4

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 342ca8f..b5ec954 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -571,7 +571,7 @@ cl_pblaze::inst_outputk(uint code, int operands)
   u8_t port;
 
   if (operands == CONSTANT_PORT) {
-    constant = (code & 0x00ff0) >> 8;
+    constant = (code & 0x00ff0) >> 4;
     port = code & 0x0000f;
   }
   else {
-- 
2.43.0


From 22551b7961edd06deef8295c2e07e172fd1c8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 129/142] fix: pblaze: zero flag of COMPARECY compares 8 bits

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index b5ec954..b0b36f9 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -297,7 +297,7 @@ cl_pblaze::inst_comparecy(uint code, int operands)
     return (resERROR);
   }
 
-  FLAGS_SET_Z((operand1 == (operand2 + FLAGS_GET_C)) && FLAGS_GET_Z);
+  FLAGS_SET_Z((operand1 == (u8_t)(operand2 + FLAGS_GET_C)) && FLAGS_GET_Z);
   FLAGS_SET_C((operand2 + FLAGS_GET_C) > operand1);
 
   return(resGO);
-- 
2.43.0


From 5e38082e54f5fb0760141c17eebd591ead6e3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 130/142] fix: pblaze: RETURNI restores the register bank

---
 src/sims/pblaze.src/inst.cc       | 4 +++-
 src/sims/pblaze.src/interrupt.cc  | 3 +++
 src/sims/pblaze.src/interruptcl.h | 1 +
 src/sims/pblaze.src/pblaze.cc     | 1 +
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index b0b36f9..8e0e781 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -660,11 +660,13 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
     //return (resERROR);
   }
-  PC = addr+1;
+  PC = (addr+1) & PCmask;
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
   FLAGS_SET_I(interrupt_enable);
+  if (type->type == CPU_PBLAZE_6)
+    active_regbank = interrupt->preserved_regbank;
 
   return (resGO);
 }
diff --git a/src/sims/pblaze.src/interrupt.cc b/src/sims/pblaze.src/interrupt.cc
index 6cc2840..b3942eb 100644
--- a/src/sims/pblaze.src/interrupt.cc
+++ b/src/sims/pblaze.src/interrupt.cc
@@ -37,6 +37,9 @@ int
 cl_interrupt::init(void)
 {
   interrupt_request = false;
+  preserved_flag_c = false;
+  preserved_flag_z = false;
+  preserved_regbank = REGISTER_BANK_A;
   return(0);
 }
 
diff --git a/src/sims/pblaze.src/interruptcl.h b/src/sims/pblaze.src/interruptcl.h
index 37c0659..d61a1d3 100644
--- a/src/sims/pblaze.src/interruptcl.h
+++ b/src/sims/pblaze.src/interruptcl.h
@@ -35,6 +35,7 @@ public:
   
   bool preserved_flag_c;
   bool preserved_flag_z;
+  int preserved_regbank;
 public:
   cl_interrupt(class cl_uc *auc);
   virtual int init(void);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..5592d65 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -898,6 +898,7 @@ cl_pblaze::do_interrupt(void)
     //stack_push(PC);
     interrupt->preserved_flag_c = FLAGS_GET_C;
     interrupt->preserved_flag_z = FLAGS_GET_Z;
+    interrupt->preserved_regbank = active_regbank;
     FLAGS_SET_I(0);
     interrupt->interrupt_request = false;
 
-- 
2.43.0


From 2c98ad6ec6b89ecbca8f21d5aefb4891c8f1a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 131/142] fix: pblaze: return address and program counter wrap
 at the size of program memory

---
 src/sims/pblaze.src/inst.cc   | 4 ++--
 src/sims/pblaze.src/pblaze.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 8e0e781..125d1e1 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -494,7 +494,7 @@ cl_pblaze::inst_load_return(uint code, int operands)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) & PCmask;
   }
   else {
     fprintf(stderr, "LOAD&RETURN: Unsupported operand type\n");
@@ -642,7 +642,7 @@ cl_pblaze::inst_return(uint code, int inst)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = (addr+1) & PCmask;
   }
 
   return(resGO);
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index 5592d65..c4549cb 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -69,8 +69,8 @@ using namespace std;
 cl_pblaze::cl_pblaze(struct cpu_entry *cputype, class cl_sim *asim):
   cl_uc(asim)
 {
-  PCmask= 0x3ff;
   type = cputype;
+  PCmask= (type->type == CPU_PBLAZE_6) ? 0xfff : 0x3ff;
 }
 
 cl_pblaze::~cl_pblaze(void) {
-- 
2.43.0


From bea73576fdce3c2cb436cebf153eacafd43f3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 132/142] fix: pblaze: mnemonics of CALL C and CALL Z

---
 src/sims/pblaze.src/glob.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pblaze.src/glob.cc b/src/sims/pblaze.src/glob.cc
index 37f8a04..3c6d329 100644
--- a/src/sims/pblaze.src/glob.cc
+++ b/src/sims/pblaze.src/glob.cc
@@ -132,9 +132,9 @@ struct dis_entry_pblaze disass_pblaze6[]= {
   { 0x03000, 0x3f000, ' ', 1, "AND %r,%k", AND,     REG_CONSTANT },
 
   { 0x20000, 0x3f000, ' ', 1, "CALL %A", CALL,          ADDRESS12 },
-  { 0x30000, 0x3f000, ' ', 1, "CALL C %A", CALL_Z,        ADDRESS12 },
+  { 0x30000, 0x3f000, ' ', 1, "CALL Z %A", CALL_Z,        ADDRESS12 },
   { 0x34000, 0x3f000, ' ', 1, "CALL NZ %A", CALL_NZ,       ADDRESS12 },
-  { 0x38000, 0x3f000, ' ', 1, "CALL Z %A", CALL_C,        ADDRESS12 },
+  { 0x38000, 0x3f000, ' ', 1, "CALL C %A", CALL_C,        ADDRESS12 },
   { 0x3c000, 0x3f000, ' ', 1, "CALL NC %A", CALL_NC,       ADDRESS12 },
   { 0x24000, 0x3f00f, ' ', 1, "CALL@ (%r, %s)", CALL_AT,       REG_REG },
 
-- 
2.43.0


From 5fab8c93dbc1b613956d800511fa93690a814ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 133/142] fix: pdk: idxm M,a writes the accumulator at the
 address in M

---
 src/sims/pdk.src/pdk16.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index ccaa93b..670e34d 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -351,7 +351,7 @@ cl_fpp16::execute(unsigned int code)
 	{
 	  // idxm M,a
 	  u= rd16(code & 0x1fe);
-	  wr8(rd8(u), rA);
+	  wr8(u, rA);
 	}
       tick(1);
       return resGO;
-- 
2.43.0


From 96a47b4dc4aadcde571f28fe3680b18c7079425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 134/142] fix: pdk: bit number of T0SN and T1SN

---
 src/sims/pdk.src/pdk16.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index 670e34d..3b9ce60 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -627,13 +627,13 @@ cl_fpp16::execute(unsigned int code)
     case 0x8000: // t0sn M,n
       u8= rd8(code & 0x1ff);
       n= (code>>9)&7;
-      if (!(u8 & (1>>n)))
+      if (!(u8 & (1<<n)))
 	PC++;
       return resGO;
     case 0x9000: // t1sn M,n
       u8= rd8(code & 0x1ff);
       n= (code>>9)&7;
-      if (u8 & (1>>n))
+      if (u8 & (1<<n))
 	PC++;
       return resGO;
     }
-- 
2.43.0


From 085afad2670dfd7c42626ebc2e2dd38c16869f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 135/142] fix: z80: reset clears I and R

---
 src/sims/z80.src/z80.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index c237bea..2003c9b 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -111,6 +111,8 @@ cl_z80::reset(void)
   IFF1= false;
   IFF2= false;
   imode= 0;
+  regs.iv= 0;
+  regs.R= 0;
 }
 
 const char *
-- 
2.43.0


From 5cac00b909c198aa2686d785fc42eae253187428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 136/142] fix: m68hc08: interrupts are masked after reset

---
 src/sims/m68hc08.src/m68hc08.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/m68hc08.cc b/src/sims/m68hc08.src/m68hc08.cc
index f2f6860..3c12b11 100644
--- a/src/sims/m68hc08.src/m68hc08.cc
+++ b/src/sims/m68hc08.src/m68hc08.cc
@@ -99,7 +99,7 @@ cl_hc08::reset(void)
   regs.A = 0;
   regs.X = 0;
   regs.H = 0;
-  regs.P = 0x60;
+  regs.P = 0x60 | BIT_I;
   regs.VECTOR = 1;
 
   PC= rom->get(0xfffe)*256 + rom->get(0xffff);
-- 
2.43.0


From 8a5d32ee9ba2523332651f56c777797b0da97a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 137/142] fix: st7: interrupts are masked after reset

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 0fa440d..f37d390 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -96,7 +96,7 @@ cl_st7::reset(void)
   regs.A = 0;
   regs.X = 0;
   regs.Y = 0;
-  regs.CC = 0x00;
+  regs.CC = BIT_I;
   regs.VECTOR = 1;
 
 }
-- 
2.43.0


From bee18a86527a01d162e7d12226f01dd990de62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 138/142] fix: m6800: reset masks interrupts and leaves the
 state of WAI

---
 src/core/motorola.src/m6800.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 5b27ee4..d333209 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -135,7 +135,8 @@ cl_m6800::reset(void)
 {
   cl_uc::reset();
 
-  cCC.W(0xc0);
+  cCC.W(0xc0 | flagI);
+  wai= false;
   PC= read_addr(rom, RESET_AT);
   tick(6);
 }
-- 
2.43.0


From eb77f25139ffdb56f532005e34a897a9639c8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 139/142] fix: i8048: setting PC did not change its highest bit

---
 src/sims/i8048.src/i8020.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..894b1e2 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -131,17 +131,15 @@ cl_i8020::id_string(void)
 void
 cl_i8020::set_PC(t_addr addr)
 {
-  // do not change A11
-  PC&= ~0x7ff;
-  addr&= 0x7ff;
-  PC|= addr;
+  PC= addr & PCmask;
 }
 
 t_mem
 cl_i8020::fetch(void)
 {
   u8_t c= rom->read(PC);
-  set_PC((PC+1)&PCmask);
+  // do not change A11
+  PC= (PC & ~0x7ff) | ((PC+1) & 0x7ff);
   if (PC >= inner_rom)
     bus->latch(PC);
   vc.fetch++;
-- 
2.43.0


From ff17bb9f01e8918cfe4039e75e277b28d8d660ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 140/142] fix: st7, m68hc08: address given to pc and run was
 ignored after reset

---
 src/sims/m68hc08.src/m68hc08.cc  | 7 +++++++
 src/sims/m68hc08.src/m68hc08cl.h | 1 +
 src/sims/st7.src/st7.cc          | 7 +++++++
 src/sims/st7.src/st7cl.h         | 1 +
 4 files changed, 16 insertions(+)

diff --git a/src/sims/m68hc08.src/m68hc08.cc b/src/sims/m68hc08.src/m68hc08.cc
index 3c12b11..58763d8 100644
--- a/src/sims/m68hc08.src/m68hc08.cc
+++ b/src/sims/m68hc08.src/m68hc08.cc
@@ -105,6 +105,13 @@ cl_hc08::reset(void)
   PC= rom->get(0xfffe)*256 + rom->get(0xffff);
 }
 
+void
+cl_hc08::set_PC(t_addr addr)
+{
+  PC= addr;
+  regs.VECTOR= 0;
+}
+
 
 const char *
 cl_hc08::id_string(void)
diff --git a/src/sims/m68hc08.src/m68hc08cl.h b/src/sims/m68hc08.src/m68hc08cl.h
index f6a01ca..787d889 100644
--- a/src/sims/m68hc08.src/m68hc08cl.h
+++ b/src/sims/m68hc08.src/m68hc08cl.h
@@ -76,6 +76,7 @@ public:
   virtual t_mem get_2(t_addr addr);
   
   virtual void reset(void);
+  virtual void set_PC(t_addr addr);
 #include "instcl.h"
   virtual int inst_call(void) { return resINV; }
   virtual int inst_rtc(void) { return resINV; }
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index f37d390..f930f5e 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -101,6 +101,13 @@ cl_st7::reset(void)
 
 }
 
+void
+cl_st7::set_PC(t_addr addr)
+{
+  PC= addr;
+  regs.VECTOR= 0;
+}
+
 
 const char *
 cl_st7::id_string(void)
diff --git a/src/sims/st7.src/st7cl.h b/src/sims/st7.src/st7cl.h
index 6593c20..afcbf81 100644
--- a/src/sims/st7.src/st7cl.h
+++ b/src/sims/st7.src/st7cl.h
@@ -79,6 +79,7 @@ public:
   virtual t_mem get_3(t_addr addr);
   
   virtual void reset(void);
+  virtual void set_PC(t_addr addr);
 #include "instcl.h"
 };
 
-- 
2.43.0


From 953829ba0b292297a742e1f39d5ab08c80ebdf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 141/142] fix: avr: reset clears SREG

---
 src/sims/avr.src/avr.cc  | 7 +++++++
 src/sims/avr.src/avrcl.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..41481aa 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -139,6 +139,13 @@ cl_avr::init(void)
   return(0);
 }
 
+void
+cl_avr::reset(void)
+{
+  cl_uc::reset();
+  ram->set(SREG, 0);
+}
+
 const char *
 cl_avr::id_string(void)
 {
diff --git a/src/sims/avr.src/avrcl.h b/src/sims/avr.src/avrcl.h
index f78f9b5..1774ed5 100644
--- a/src/sims/avr.src/avrcl.h
+++ b/src/sims/avr.src/avrcl.h
@@ -46,6 +46,7 @@ public:
 public:
   cl_avr(class cl_sim *asim);
   virtual int init(void);
+  virtual void reset(void);
   virtual const char *id_string(void);
 
   virtual void mk_hw_elements(void);
-- 
2.43.0


From b5c66730322a57386a2f35b6e7db51d2d992207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 142/142] fix: pdk: address given to pc and run was ignored

---
 src/sims/pdk.src/pdk.cc  | 6 ++++++
 src/sims/pdk.src/pdkcl.h | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..88f4fec 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -928,6 +928,12 @@ cl_pdk::get_pc(int id)
   return fpps[id]->PC;
 }
 
+void
+cl_pdk::set_PC(t_addr addr)
+{
+  PC= fpps[act]->PC= addr;
+}
+
 void
 cl_pdk::set_pc(int id, t_addr new_pc)
 {
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index eb3e687..17686ee 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -265,6 +265,7 @@ public:
   virtual u8_t set_act(u8_t val);
   virtual u8_t set_nuof(u8_t val);
   virtual t_addr get_pc(int id);
+  virtual void set_PC(t_addr addr);
   virtual void set_pc(int id, t_addr new_pc);
   
   virtual int exec_inst(void);
-- 
2.43.0

