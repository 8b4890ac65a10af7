// A software implementation of the parts of CSFML a renderer needs: textures, vertex arrays, sprites, views,
// the palette shader (resources/bgsp.frag). Renders into soft_px (256x384 logical pixels, RGBA).
#pragma once
#include <SFML/Window.h>
#include <SFML/Graphics.h>
#include <math.h>
#define SOFT_W 256
#define SOFT_H 384
typedef struct { u8 r,g,b,a; } soft_rgba;
static soft_rgba soft_back[SOFT_H*SOFT_W], soft_px[SOFT_H*SOFT_W]; static int soft_frames;
static void (*soft_hook)(const char*); // called before and after each call that a renderer makes
#define HOOK(n) do { if (soft_hook) soft_hook(n); } while (0)
enum { SO_TEX=1, SO_VA, SO_SPR, SO_VIEW, SO_SHD };
typedef struct sobj { int kind; bool alive, kept; void* p; struct sobj* next; void* save; size_t n; } sobj;
static sobj* soft_objs; static int soft_alive[8];
static void* so_new(int kind, size_t n){ sobj* o=calloc(1,sizeof *o); o->kind=kind; o->alive=true; o->n=n; o->p=calloc(1,n); o->next=soft_objs; soft_objs=o; ++soft_alive[kind]; *(sobj**)o->p=o; return o->p; }
static sobj* so_get(const void* p, int kind, const char* what){ if (!p) mc_fail("%s of nothing",what); sobj* o=*(sobj**)p; if (o->kind!=kind) mc_fail("%s of another kind of object",what); if (!o->alive) mc_fail("%s used after it was destroyed",what); return o; }
static void so_del(const void* p, int kind, const char* what){ if (!p) return; sobj* o=so_get(p,kind,what); o->alive=false; --soft_alive[kind]; }
struct sfTexture { sobj* o; int w,h; bool smooth,rep; soft_rgba* px; bool dirty; soft_rgba* keep; };
struct sfVertexArray { sobj* o; sfPrimitiveType t; size_t n,cap; sfVertex* v; sfVertex* keep; size_t nkeep; };
struct sfSprite { sobj* o; const sfTexture* t; sfIntRect r; sfVector2f pos,scale,origin; float rot; sfColor c; };
struct sfView { sobj* o; sfFloatRect r, vp; };
struct sfShader { sobj* o; float colbank; bool grp; const sfTexture* colors; };
static struct sfView soft_view; static int soft_win;
#define TEX(t) so_get(t,SO_TEX,"texture")
#define VA_(t) so_get(t,SO_VA,"vertex array")
sfTexture* sfTexture_create(unsigned w,unsigned h){ HOOK("sfTexture_create"); sfTexture* t=so_new(SO_TEX,sizeof *t); t->w=w; t->h=h; t->px=calloc(w*h,4); return t; }
sfTexture* sfTexture_copy(const sfTexture* s){ TEX(s); sfTexture* t=sfTexture_create(s->w,s->h); memcpy(t->px,s->px,4*s->w*s->h); return t; }
void sfTexture_destroy(sfTexture* t){ HOOK("sfTexture_destroy"); so_del(t,SO_TEX,"texture"); }
sfVector2u sfTexture_getSize(const sfTexture* t){ TEX(t); return (sfVector2u){t->w,t->h}; }
void sfTexture_setSmooth(sfTexture* t, sfBool s){ t->smooth=s; } void sfTexture_setRepeated(sfTexture* t, sfBool s){ t->rep=s; }
void sfTexture_updateFromPixels(sfTexture* t,const sfUint8* p,unsigned w,unsigned h,unsigned x,unsigned y){ TEX(t); HOOK("sfTexture_updateFromPixels"); if (x+w>t->w||y+h>t->h) mc_fail("a texture is updated outside its size"); t->dirty=true; for (unsigned j=0;j<h;++j) memcpy(t->px+(y+j)*t->w+x,p+4*w*j,4*w); HOOK("sfTexture_updateFromPixels"); }
sfVertexArray* sfVertexArray_create(void){ return so_new(SO_VA,sizeof(sfVertexArray)); }
void sfVertexArray_destroy(sfVertexArray* v){ so_del(v,SO_VA,"vertex array"); }
void sfVertexArray_setPrimitiveType(sfVertexArray* v,sfPrimitiveType t){ VA_(v); v->t=t; } sfPrimitiveType sfVertexArray_getPrimitiveType(sfVertexArray* v){ return v->t; }
size_t sfVertexArray_getVertexCount(const sfVertexArray* v){ VA_(v); return v->n; }
void sfVertexArray_resize(sfVertexArray* v,size_t n){ VA_(v); if (n>v->cap){ v->v=realloc(v->v,n*sizeof(sfVertex)); v->cap=n; } for (size_t i=v->n;i<n;++i) v->v[i]=(sfVertex){{0,0},{255,255,255,255},{0,0}}; v->n=n; }
void sfVertexArray_clear(sfVertexArray* v){ VA_(v); v->n=0; }
sfVertex* sfVertexArray_getVertex(sfVertexArray* v,size_t i){ VA_(v); if (i>=v->n) mc_fail("vertex %zu of %zu",i,v->n); return v->v+i; }
void sfVertexArray_append(sfVertexArray* v,sfVertex x){ VA_(v); if (v->n==v->cap){ v->cap=v->cap?2*v->cap:64; v->v=realloc(v->v,v->cap*sizeof(sfVertex)); } v->v[v->n++]=x; }
sfSprite* sfSprite_create(void){ sfSprite* s=so_new(SO_SPR,sizeof *s); s->scale=(sfVector2f){1,1}; s->c=(sfColor){255,255,255,255}; return s; }
void sfSprite_destroy(sfSprite* s){ so_del(s,SO_SPR,"sprite"); }
void sfSprite_setTexture(sfSprite* s,const sfTexture* t,sfBool reset){ TEX(t); s->t=t; if (reset||!s->r.width) s->r=(sfIntRect){0,0,t->w,t->h}; }
void sfSprite_setTextureRect(sfSprite* s,sfIntRect r){ s->r=r; } void sfSprite_setPosition(sfSprite* s,sfVector2f p){ s->pos=p; } void sfSprite_setScale(sfSprite* s,sfVector2f p){ s->scale=p; } void sfSprite_setColor(sfSprite* s,sfColor c){ s->c=c; }
sfView* sfView_create(void){ sfView* v=so_new(SO_VIEW,sizeof *v); v->r=(sfFloatRect){0,0,1000,1000}; v->vp=(sfFloatRect){0,0,1,1}; return v; }
sfView* sfView_createFromRect(sfFloatRect r){ sfView* v=sfView_create(); v->r=r; return v; }
void sfView_destroy(sfView* v){ so_del(v,SO_VIEW,"view"); } void sfView_setViewport(sfView* v,sfFloatRect r){ so_get(v,SO_VIEW,"view"); v->vp=r; } void sfView_reset(sfView* v,sfFloatRect r){ v->r=r; }
void sfView_setCenter(sfView* v,sfVector2f c){ v->r.left=c.x-v->r.width/2; v->r.top=c.y-v->r.height/2; } void sfView_setSize(sfView* v,sfVector2f c){ float x=v->r.left+v->r.width/2,y=v->r.top+v->r.height/2; v->r.width=c.x; v->r.height=c.y; sfView_setCenter(v,(sfVector2f){x,y}); }
sfFloatRect sfView_getViewport(const sfView* v){ return v->vp; }
sfBool sfShader_isAvailable(void){ return sfTrue; }
sfShader* sfShader_createFromFile(const char* a,const char* b,const char* c){ return so_new(SO_SHD,sizeof(sfShader)); }
void sfShader_destroy(sfShader* s){ so_del(s,SO_SHD,"shader"); }
void sfShader_setFloatUniform(sfShader* s,const char* n,float x){ if (!strcmp(n,"colbank")) s->colbank=x; else mc_fail("unknown uniform %s",n); } void sfShader_setFloatParameter(sfShader* s,const char* n,float x){ sfShader_setFloatUniform(s,n,x); }
void sfShader_setBoolUniform(sfShader* s,const char* n,sfBool x){ if (!strcmp(n,"grp_mode")) s->grp=x; else mc_fail("unknown uniform %s",n); }
void sfShader_setTextureUniform(sfShader* s,const char* n,const sfTexture* t){ TEX(t); if (!strcmp(n,"colors")) s->colors=t; else mc_fail("unknown uniform %s",n); }
void sfShader_setCurrentTextureUniform(sfShader* s,const char* n){ if (strcmp(n,"texture")) mc_fail("unknown uniform %s",n); }
const sfTransform sfTransform_Identity={{1,0,0,0,1,0,0,0,1}};
void sfTransform_combine(sfTransform* a,const sfTransform* b){ float r[9]; for (int i=0;i<3;++i) for (int j=0;j<3;++j){ float s=0; for (int k=0;k<3;++k) s+=a->matrix[3*i+k]*b->matrix[3*k+j]; r[3*i+j]=s; } memcpy(a->matrix,r,sizeof r); }
void sfTransform_translate(sfTransform* a,float x,float y){ sfTransform t={{1,0,x,0,1,y,0,0,1}}; sfTransform_combine(a,&t); } void sfTransform_scale(sfTransform* a,float x,float y){ sfTransform t={{x,0,0,0,y,0,0,0,1}}; sfTransform_combine(a,&t); }
sfTransform sfTransform_fromMatrix(float a,float b,float c,float d,float e,float f,float g,float h,float i){ return (sfTransform){{a,b,c,d,e,f,g,h,i}}; }
sfVector2f sfTransform_transformPoint(const sfTransform* t,sfVector2f p){ return (sfVector2f){t->matrix[0]*p.x+t->matrix[1]*p.y+t->matrix[2],t->matrix[3]*p.x+t->matrix[4]*p.y+t->matrix[5]}; }
sfRenderStates sfRenderStates_default(void){ sfRenderStates s; memset(&s,0,sizeof s); s.transform=sfTransform_Identity; return s; }
sfColor sfBlack={0,0,0,255}, sfWhite={255,255,255,255}, sfTransparent={0,0,0,0};
void sfRenderWindow_setView(sfRenderWindow* w,const sfView* v){ so_get(v,SO_VIEW,"view"); soft_view=*v; }
const sfView* sfRenderWindow_getView(const sfRenderWindow* w){ return &soft_view; }
void sfRenderWindow_clear(sfRenderWindow* w,sfColor c){ HOOK("sfRenderWindow_clear"); for (int i=0;i<SOFT_W*SOFT_H;++i) soft_back[i]=(soft_rgba){c.r,c.g,c.b,255}; }
void sfRenderWindow_display(sfRenderWindow* w){ memcpy(soft_px,soft_back,sizeof soft_px); ++soft_frames; HOOK("sfRenderWindow_display"); }
static inline int clampi(int a,int l,int h){ return a<l?l:a>h?h:a; }
static inline soft_rgba texel(const sfTexture* t,float u,float v){ int x=floorf(u),y=floorf(v); if (t->rep){ x=((x%t->w)+t->w)%t->w; y=((y%t->h)+t->h)%t->h; } return t->px[clampi(y,0,t->h-1)*t->w+clampi(x,0,t->w-1)]; }
static void plot(int x,int y,const sfRenderStates* rs,float u,float v,u8 red){
	soft_rgba c; const sfTexture* t=rs->texture; sfShader* s=(sfShader*)rs->shader;
	soft_rgba in=t?texel(t,u,v):(soft_rgba){255,255,255,255};
	if (s){ int i=in.r; float f=(s->grp?in.r:i?red+in.r:in.r)/255.0f; int cx=clampi((int)floorf(f*s->colors->w),0,s->colors->w-1), cy=clampi((int)floorf(s->colbank/5.0f*s->colors->h),0,s->colors->h-1); c=s->colors->px[cy*s->colors->w+cx]; } else c=in;
	soft_rgba* d=&soft_back[y*SOFT_W+x]; if (c.a==255) *d=c; else if (c.a){ d->r=(c.r*c.a+d->r*(255-c.a))/255; d->g=(c.g*c.a+d->g*(255-c.a))/255; d->b=(c.b*c.a+d->b*(255-c.a))/255; } }
static void tri(const sfVertex* a,const sfVertex* b,const sfVertex* c,const sfRenderStates* rs,int l,int t,int r,int bt){
	float d=(b->position.x-a->position.x)*(c->position.y-a->position.y)-(c->position.x-a->position.x)*(b->position.y-a->position.y); if (d==0) return;
	int x0=clampi(floorf(fminf(a->position.x,fminf(b->position.x,c->position.x))),l,r),x1=clampi(ceilf(fmaxf(a->position.x,fmaxf(b->position.x,c->position.x))),l,r),y0=clampi(floorf(fminf(a->position.y,fminf(b->position.y,c->position.y))),t,bt),y1=clampi(ceilf(fmaxf(a->position.y,fmaxf(b->position.y,c->position.y))),t,bt);
	for (int y=y0;y<y1;++y) for (int x=x0;x<x1;++x){ float px=x+.5f-a->position.x,py=y+.5f-a->position.y;
		float wb=(px*(c->position.y-a->position.y)-(c->position.x-a->position.x)*py)/d, wc=((b->position.x-a->position.x)*py-px*(b->position.y-a->position.y))/d, wa=1-wb-wc;
		if (wa<-1e-6f||wb<-1e-6f||wc<-1e-6f) continue;
		// (a point on the edge belongs to this triangle's part of the texture)
		float u=wa*a->texCoords.x+wb*b->texCoords.x+wc*c->texCoords.x,v=wa*a->texCoords.y+wb*b->texCoords.y+wc*c->texCoords.y;
		u=fmaxf(fminf(a->texCoords.x,fminf(b->texCoords.x,c->texCoords.x))+.01f,fminf(fmaxf(a->texCoords.x,fmaxf(b->texCoords.x,c->texCoords.x))-.01f,u)); v=fmaxf(fminf(a->texCoords.y,fminf(b->texCoords.y,c->texCoords.y))+.01f,fminf(fmaxf(a->texCoords.y,fmaxf(b->texCoords.y,c->texCoords.y))-.01f,v));
		plot(x,y,rs,u,v,a->color.r); } }
static void quad(const sfVertex* in,const sfRenderStates* rs){
	const struct sfView* w=&soft_view; sfVertex v[4];
	float sx=w->vp.width*SOFT_W/w->r.width, sy=w->vp.height*SOFT_H/w->r.height, ox=w->vp.left*SOFT_W-w->r.left*sx, oy=w->vp.top*SOFT_H-w->r.top*sy;
	int l=w->vp.left*SOFT_W+.5f,t=w->vp.top*SOFT_H+.5f,r=l+(int)(w->vp.width*SOFT_W+.5f),b=t+(int)(w->vp.height*SOFT_H+.5f); l=clampi(l,0,SOFT_W); r=clampi(r,0,SOFT_W); t=clampi(t,0,SOFT_H); b=clampi(b,0,SOFT_H);
	for (int i=0;i<4;++i){ v[i]=in[i]; sfVector2f p=sfTransform_transformPoint(&rs->transform,in[i].position); v[i].position=(sfVector2f){p.x*sx+ox,p.y*sy+oy}; }
	if (v[0].position.y==v[1].position.y&&v[1].position.x==v[2].position.x&&v[2].position.y==v[3].position.y&&v[3].position.x==v[0].position.x&&v[0].texCoords.y==v[1].texCoords.y&&v[1].texCoords.x==v[2].texCoords.x&&v[2].texCoords.y==v[3].texCoords.y&&v[3].texCoords.x==v[0].texCoords.x){
		float xa=v[0].position.x,xb=v[1].position.x,ya=v[0].position.y,yb=v[3].position.y; if (xa==xb||ya==yb) return;
		float dx=(v[1].texCoords.x-v[0].texCoords.x)/(xb-xa), dy=(v[3].texCoords.y-v[0].texCoords.y)/(yb-ya);
		int x0=clampi((int)ceilf(fminf(xa,xb)-.5f),l,r),x1=clampi((int)ceilf(fmaxf(xa,xb)-.5f),l,r),y0=clampi((int)ceilf(fminf(ya,yb)-.5f),t,b),y1=clampi((int)ceilf(fmaxf(ya,yb)-.5f),t,b);
		for (int y=y0;y<y1;++y) for (int x=x0;x<x1;++x) plot(x,y,rs,v[0].texCoords.x+(x+.5f-xa)*dx,v[0].texCoords.y+(y+.5f-ya)*dy,v[0].color.r);
	} else { tri(v,v+1,v+2,rs,l,t,r,b); tri(v,v+2,v+3,rs,l,t,r,b); } }
static void draw_vertices(const sfVertex* v,size_t n,sfPrimitiveType t,const sfRenderStates* rs){
	sfRenderStates d=sfRenderStates_default(); if (!rs) rs=&d; if (rs->texture) TEX(rs->texture); if (rs->shader){ so_get(rs->shader,SO_SHD,"shader"); TEX(((sfShader*)rs->shader)->colors); }
	if (t==sfQuads) for (size_t i=0;i+3<n;i+=4) quad(v+i,rs); else if (t==sfTriangles){ for (size_t i=0;i+2<n;i+=3){ sfVertex q[4]={v[i],v[i+1],v[i+2],v[i+2]}; quad(q,rs); } } else mc_fail("unsupported primitive %d",t); }
void sfRenderWindow_drawVertexArray(sfRenderWindow* w,const sfVertexArray* v,const sfRenderStates* rs){ HOOK("draw"); VA_(v); draw_vertices(v->v,v->n,v->t,rs); HOOK("draw"); }
void sfRenderWindow_drawPrimitives(sfRenderWindow* w,const sfVertex* v,size_t n,sfPrimitiveType t,const sfRenderStates* rs){ HOOK("draw"); draw_vertices(v,n,t,rs); }
void sfRenderWindow_drawSprite(sfRenderWindow* w,const sfSprite* s,const sfRenderStates* rs){ HOOK("draw"); so_get(s,SO_SPR,"sprite"); TEX(s->t); sfRenderStates q=rs?*rs:sfRenderStates_default(); q.texture=s->t; float x=s->pos.x-s->origin.x*s->scale.x,y=s->pos.y-s->origin.y*s->scale.y,ww=abs(s->r.width)*s->scale.x,hh=abs(s->r.height)*s->scale.y,u=s->r.left,v=s->r.top;
	sfVertex a[4]={{{x,y},s->c,{u,v}},{{x+ww,y},s->c,{u+s->r.width,v}},{{x+ww,y+hh},s->c,{u+s->r.width,v+s->r.height}},{{x,y+hh},s->c,{u,v+s->r.height}}}; draw_vertices(a,4,sfQuads,&q); HOOK("draw"); }
// ---- the objects belong to the state that is restored before each execution
static void soft_keep(void){ for (sobj* o=soft_objs;o;o=o->next) if (o->alive){ o->kept=true; free(o->save); o->save=malloc(o->n); memcpy(o->save,o->p,o->n);
	if (o->kind==SO_TEX){ sfTexture* t=o->p; t->keep=malloc(4*t->w*t->h); memcpy(t->keep,t->px,4*t->w*t->h); t->dirty=false; memcpy(o->save,o->p,o->n); }
	if (o->kind==SO_VA){ sfVertexArray* v=o->p; v->nkeep=v->n; v->keep=malloc(v->n*sizeof(sfVertex)+1); if (v->n) memcpy(v->keep,v->v,v->n*sizeof(sfVertex)); } } }
static void soft_restore(void){ memset(soft_alive,0,sizeof soft_alive); for (sobj **q=&soft_objs,*o; (o=*q);){ if (!o->kept){ *q=o->next; if (o->kind==SO_TEX) free(((sfTexture*)o->p)->px); if (o->kind==SO_VA) free(((sfVertexArray*)o->p)->v); free(o->p); free(o); continue; }
	if (o->kind==SO_VA){ sfVertexArray* v=o->p; v->n=v->nkeep; if (v->n) memcpy(v->v,v->keep,v->n*sizeof(sfVertex)); }
	else { bool d=o->kind==SO_TEX&&((sfTexture*)o->p)->dirty; memcpy(o->p,o->save,o->n); if (d){ sfTexture* t=o->p; memcpy(t->px,t->keep,4*t->w*t->h); } }
	o->alive=true; ++soft_alive[o->kind]; q=&o->next; } soft_hook=NULL; }
