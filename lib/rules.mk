# Build rules used by the /verif checks: same objects, parts, libraries and programs as /repo's Makefiles declare
# (SRC, PART, LIB, SYMS, PROG, CFLAGS.x, INCDIR.x, LFLAGS.x), compiled with the sanitizer flags in VCFLAGS.
UNAME_S != uname -s
SYSTEM ?= ${UNAME_S}
LD ?= ld
AR ?= ar
OBJCOPY ?= objcopy

CFLAGS += -std=c99 -pthread -I include ${VCFLAGS}

.for dir in ${SUBDIR}
.sinclude "${.CURDIR}/vpmk/${dir}/sub.mk"
.endfor

.for src in ${SRC}
${BUILD}/${src:R}.o: ${src}
	@mkdir -p ${.TARGET:H}
	@${CC} ${CFLAGS} ${INCDIR.${src}:S/^/-I /} ${CFLAGS.${src}} -c -o ${.TARGET} ${src}
.endfor

.for part in ${PART}
${BUILD}/lib/${part}.o:
	@mkdir -p ${.TARGET:H}
	@${LD} -r -o ${.TARGET} ${.ALLSRC:M*.o:O:u}
.endfor

.for lib in ${LIB}
${BUILD}/lib/${lib}.o: ${SYMS.${lib}}
	@mkdir -p ${.TARGET:H}
	@${LD} -r -o ${.TARGET} ${.ALLSRC:M*.o:O:u}
	@sed -e 's/#.*//' -e 's/[[:space:]]//g' -e '/^$$/d' ${SYMS.${lib}} > ${BUILD}/lib/${lib}.keep
	@cat ${VKEEP} >> ${BUILD}/lib/${lib}.keep
	@${OBJCOPY} --wildcard --keep-global-symbols=${BUILD}/lib/${lib}.keep ${.TARGET}

${BUILD}/lib/${lib}.a: ${BUILD}/lib/${lib}.o
	@rm -f ${.TARGET}
	@${LD} -r -o ${BUILD}/lib/${lib}-all.o ${.ALLSRC:M*.o:O:u}
	@${AR} rcs ${.TARGET} ${BUILD}/lib/${lib}-all.o

lib:: ${BUILD}/lib/${lib}.a
.endfor

.for prog in ${PROG}
${BUILD}/bin/${prog}:
	@mkdir -p ${.TARGET:H}
	@${CC} ${CFLAGS} -o ${.TARGET} ${.ALLSRC:M*.o:O:u} -Wl,--start-group ${.ALLSRC:M*.a:O:u} -Wl,--end-group ${LFLAGS.${prog}}

prog:: ${BUILD}/bin/${prog}
.endfor
