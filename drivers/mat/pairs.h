// pairs of representations an operation is offered for (target/left operand first)
#pragma once
#define CONV_DC(X) X(DC,DC) X(DC,DR) X(DC,FC) X(DC,FR) X(DC,SC) X(DC,SR) X(DC,GC) X(DC,GR) X(DC,Z) X(DC,MS) X(DC,MD) X(DC,Y) X(DC,V) X(DC,W) X(DC,I)
#define FILT_DC(X) X(DC,DC) X(DC,DR) X(DC,FC) X(DC,FR) X(DC,V) X(DC,W) X(DC,I)
#define CONV_DR(X) X(DR,DC) X(DR,DR) X(DR,FC) X(DR,FR) X(DR,SC) X(DR,SR) X(DR,GC) X(DR,GR) X(DR,Z) X(DR,I)
#define FILT_DR(X) X(DR,DC) X(DR,DR) X(DR,FC) X(DR,FR) X(DR,I)
#define CONV_FC(X) X(FC,DC) X(FC,DR) X(FC,FC) X(FC,FR) X(FC,SC) X(FC,SR) X(FC,GC) X(FC,GR) X(FC,Z) X(FC,MS) X(FC,MD) X(FC,Y) X(FC,V) X(FC,W) X(FC,I)
#define FILT_FC(X) X(FC,DC) X(FC,DR) X(FC,FC) X(FC,FR) X(FC,V) X(FC,W) X(FC,I)
#define CONV_FR(X) X(FR,DC) X(FR,DR) X(FR,FC) X(FR,FR) X(FR,SC) X(FR,SR) X(FR,GC) X(FR,GR) X(FR,Z) X(FR,I)
#define FILT_FR(X) X(FR,DC) X(FR,DR) X(FR,FC) X(FR,FR) X(FR,I)
#define CONV_SC(X) X(SC,DC) X(SC,DR) X(SC,FC) X(SC,FR) X(SC,SC) X(SC,SR) X(SC,GC) X(SC,GR) X(SC,V) X(SC,W) X(SC,I)
#define FILT_SC(X) X(SC,DC) X(SC,DR) X(SC,FC) X(SC,FR) X(SC,SC) X(SC,SR) X(SC,GC) X(SC,GR) X(SC,V) X(SC,W) X(SC,I)
#define CONV_SR(X) X(SR,DC) X(SR,DR) X(SR,FC) X(SR,FR) X(SR,SC) X(SR,SR) X(SR,GC) X(SR,GR) X(SR,V) X(SR,W) X(SR,I)
#define FILT_SR(X) X(SR,DC) X(SR,DR) X(SR,FC) X(SR,FR) X(SR,SC) X(SR,SR) X(SR,GC) X(SR,GR) X(SR,V) X(SR,W) X(SR,I)
#define CONV_GC(X) X(GC,DC) X(GC,DR) X(GC,FC) X(GC,FR) X(GC,SC) X(GC,SR) X(GC,GC) X(GC,GR) X(GC,V) X(GC,W) X(GC,I)
#define FILT_GC(X) X(GC,DC) X(GC,DR) X(GC,FC) X(GC,FR) X(GC,SC) X(GC,SR) X(GC,GC) X(GC,GR) X(GC,V) X(GC,W) X(GC,I)
#define CONV_GR(X) X(GR,DC) X(GR,DR) X(GR,FC) X(GR,FR) X(GR,SC) X(GR,SR) X(GR,GC) X(GR,GR) X(GR,V) X(GR,W) X(GR,I)
#define FILT_GR(X) X(GR,DC) X(GR,DR) X(GR,FC) X(GR,FR) X(GR,SC) X(GR,SR) X(GR,GC) X(GR,GR) X(GR,V) X(GR,W) X(GR,I)
#define CONV_Z(X) X(Z,DC) X(Z,DR) X(Z,FC) X(Z,FR) X(Z,SC) X(Z,SR) X(Z,GC) X(Z,GR) X(Z,Z) X(Z,ZR) X(Z,V) X(Z,W) X(Z,I)
#define CONV_ZR(X) X(ZR,DC) X(ZR,DR) X(ZR,FC) X(ZR,FR) X(ZR,SC) X(ZR,SR) X(ZR,GC) X(ZR,GR) X(ZR,Z) X(ZR,ZR) X(ZR,V) X(ZR,W) X(ZR,I)
#define ADD_C(X) X(DC,DC) X(DC,FC) X(DC,SC) X(DC,GC) X(DC,Z) X(FC,DC) X(FC,FC) X(FC,SC) X(FC,GC) X(FC,Z) X(SC,DC) X(SC,FC) X(SC,SC) X(SC,GC) X(SC,Z) X(GC,DC) X(GC,FC) X(GC,SC) X(GC,GC) X(GC,Z) X(Z,DC) X(Z,FC) X(Z,SC) X(Z,GC) X(Z,Z)
#define ADD_R(X) X(DR,DR) X(DR,FR) X(DR,SR) X(DR,GR) X(DR,ZR) X(FR,DR) X(FR,FR) X(FR,SR) X(FR,GR) X(FR,ZR) X(SR,DR) X(SR,FR) X(SR,SR) X(SR,GR) X(SR,ZR) X(GR,DR) X(GR,FR) X(GR,SR) X(GR,GR) X(GR,ZR) X(ZR,DR) X(ZR,FR) X(ZR,SR) X(ZR,GR) X(ZR,ZR)
#define ADD_M1(X) X(MS,DC) X(MS,FC) X(MS,SC) X(MS,GC) X(MS,Z) X(MS,MS) X(MS,MD) X(MD,DC) X(MD,FC) X(MD,SC) X(MD,GC) X(MD,Z) X(MD,MS) X(MD,MD)
#define ADD_M2(X) X(DC,MS) X(DC,MD) X(FC,MS) X(FC,MD) X(SC,MS) X(SC,MD) X(GC,MS) X(GC,MD) X(Z,MS) X(Z,MD)
#define ACC_C(X) X(DC,DC) X(DC,FC) X(DC,SC) X(DC,GC) X(DC,Z) X(FC,DC) X(FC,FC) X(FC,SC) X(FC,GC) X(FC,Z) X(SC,DC) X(SC,FC) X(SC,SC) X(SC,GC) X(SC,Z) X(GC,DC) X(GC,FC) X(GC,SC) X(GC,GC) X(GC,Z) X(Z,DC) X(Z,FC) X(Z,SC) X(Z,GC) X(Z,Z) X(V,V) X(V,W) X(W,V) X(W,W)
#define ACC_R(X) X(DR,DR) X(DR,FR) X(DR,SR) X(DR,GR) X(DR,ZR) X(FR,DR) X(FR,FR) X(FR,SR) X(FR,GR) X(FR,ZR) X(SR,DR) X(SR,FR) X(SR,SR) X(SR,GR) X(SR,ZR) X(GR,DR) X(GR,FR) X(GR,SR) X(GR,GR) X(GR,ZR) X(ZR,DR) X(ZR,FR) X(ZR,SR) X(ZR,GR) X(ZR,ZR)
#define ACC_M1(X) X(MS,DC) X(MS,FC) X(MS,SC) X(MS,GC) X(MS,Z) X(MS,MS) X(MS,MD) X(MD,DC) X(MD,FC) X(MD,SC) X(MD,GC) X(MD,Z) X(MD,MS) X(MD,MD)
#define ACC_M2(X) X(DC,MS) X(DC,MD) X(FC,MS) X(FC,MD) X(SC,MS) X(SC,MD) X(GC,MS) X(GC,MD) X(Z,MS) X(Z,MD)
#define ACC_M3(X) X(ME,DC) X(ME,FC) X(ME,SC) X(ME,GC) X(ME,Z) X(ME,MS) X(ME,MD) X(ME,ME) X(DC,ME) X(FC,ME) X(MS,ME) X(MD,ME)
#define MUL_DD(X) X(DC,DC) X(DC,DR) X(DC,FC) X(DC,FR) X(DR,DC) X(DR,DR) X(DR,FC) X(DR,FR) X(FC,DC) X(FC,DR) X(FC,FC) X(FC,FR) X(FR,DC) X(FR,DR) X(FR,FC) X(FR,FR)
#define MUL_DS(X) X(DC,SC) X(DC,SR) X(DC,GC) X(DC,GR) X(DR,SC) X(DR,SR) X(DR,GC) X(DR,GR) X(FC,SC) X(FC,SR) X(FC,GC) X(FC,GR) X(FR,SC) X(FR,SR) X(FR,GC) X(FR,GR)
#define MUL_SD(X) X(SC,DC) X(SC,DR) X(SC,FC) X(SC,FR) X(SR,DC) X(SR,DR) X(SR,FC) X(SR,FR) X(GC,DC) X(GC,DR) X(GC,FC) X(GC,FR) X(GR,DC) X(GR,DR) X(GR,FC) X(GR,FR)
#define MUL_SS(X) X(SC,SC) X(SC,SR) X(SC,GC) X(SC,GR) X(SR,SC) X(SR,SR) X(SR,GC) X(SR,GR) X(GC,SC) X(GC,SR) X(GC,GC) X(GC,GR) X(GR,SC) X(GR,SR) X(GR,GC) X(GR,GR)
#define MUL_Z(X) X(DC,Z) X(FC,Z) X(SC,Z) X(GC,Z)
#define MUL_Z2(X) X(Z,DC) X(Z,FC) X(Z,SC) X(Z,GC) X(Z,Z)
#define MUL_M1(X) X(MS,DC) X(MS,DR) X(MS,FC) X(MS,FR) X(MS,SC) X(MS,SR) X(MS,GC) X(MS,GR) X(MS,Z) X(MD,DC) X(MD,DR) X(MD,FC) X(MD,FR) X(MD,SC) X(MD,SR) X(MD,GC) X(MD,GR) X(MD,Z)
#define MUL_M2(X) X(DC,MS) X(DC,MD) X(DR,MS) X(DR,MD) X(FC,MS) X(FC,MD) X(FR,MS) X(FR,MD) X(SC,MS) X(SC,MD) X(SR,MS) X(SR,MD) X(GC,MS) X(GC,MD) X(GR,MS) X(GR,MD) X(Z,MS) X(Z,MD)
#define MUL_MM(X) X(MS,MS) X(MS,MD) X(MD,MS) X(MD,MD)
#define EQ(X) X(DC,DC) X(DC,DR) X(DC,FC) X(DC,FR) X(DC,I) X(DR,DC) X(DR,DR) X(DR,FC) X(DR,FR) X(DR,I) X(FC,DC) X(FC,DR) X(FC,FC) X(FC,FR) X(FC,I) X(FR,DC) X(FR,DR) X(FR,FC) X(FR,FR) X(FR,I) X(I,DC) X(I,DR) X(I,FC) X(I,FR) X(I,I) X(Z,Z) X(Z,ZR) X(ZR,Z) X(ZR,ZR)
